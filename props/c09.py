"""C09: Bayesian priors as accumulations of terms (model-based, operation sequences)."""
from pbt.common import *

RULE = ("A case is a parameter count, a smoothing value, and a sequence of 0..8 operations (six add_* kinds with random "
        "indices, values, weights given as None/scalar/list/array and orders given as scalar or per term, plus copying the "
        "prior), executed on the dense and the sparse class and on a plain model, compared at random points after every "
        "operation. Non-trivial: at least two different kinds of terms with non-unit weights or non-quadratic orders.")
EXAMPLES = {"quick": 2000, "thorough": 15000}
KINDS = ["exact", "exact_adaptive", "sparsity", "adaptive_sparsity", "contrast", "ratios"]
VALS = [1.0, 2.0, -1.0, 0.5, -3.0, 1e-3, 250.0, 0.125]
WEIGHTS = [1.0, 2.0, 0.25, 10.0, -1.5]


def strategy(st):
    @st.composite
    def op(draw, n):
        kind = draw(st.sampled_from(KINDS + ["copy"]))
        if kind == "copy":
            return {"op": "copy"}
        idx = st.integers(0, n - 1)
        k = draw(size(st, 1, 4, 12))
        o = {"op": kind}
        if kind in ("exact", "exact_adaptive", "sparsity", "adaptive_sparsity"):
            o["idx"] = draw(st.lists(idx, min_size=k, max_size=k))
        elif kind == "contrast":
            w = draw(st.integers(1, n))
            o["idx"] = [draw(st.lists(idx, min_size=w, max_size=w, unique=True)) for _ in range(k)]
        else:
            o["idx"] = [draw(st.lists(idx, min_size=2, max_size=2, unique=True)) for _ in range(k)]
        o["values"] = draw(st.lists(st.sampled_from(VALS), min_size=k, max_size=k))
        if kind in ("exact", "exact_adaptive"):
            o["values"] = [draw(st.sampled_from([v, v, 0.0])) for v in o["values"]]
        o["wkind"] = draw(st.sampled_from(["none", "scalar", "list", "array"]))
        o["weights"] = draw(st.lists(st.sampled_from(WEIGHTS), min_size=k, max_size=k))
        o["okind"] = draw(st.sampled_from(["default", "scalar", "list"]))
        o["orders"] = draw(st.lists(st.sampled_from([1, 2, 0]), min_size=k, max_size=k))
        return o

    @st.composite
    def case(draw):
        n = draw(size(st, 2, 7, 40))
        return {"n": n, "alpha": draw(st.sampled_from([1e-5, 1e-8, 1e-2, 1.0])),
                "ops": draw(st.lists(op(n), max_size=8)), "x": draw(blob(st, n * 3)), "col": draw(st.booleans())}
    return case()


def check(c, ctx):
    import numpy as np
    from src.models.bayesian_prior import BayesianPrior
    from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
    n, alpha = c["n"], c["alpha"]
    pts = reals(c["x"]).reshape(3, n)
    dense, sparse_ = SmoothPrior(alpha, n), SparseSmoothPrior(alpha, n)
    model = []          # (row, centre, order)
    old = None
    plain, quadratic = BayesianPrior(n), []     # the same terms, without orders

    def compare(pd, ps, terms, what):
        k = len(terms)
        L = np.array([r for r, _, _ in terms]).reshape(k, n)
        mu = np.array([m for _, m, _ in terms], dtype=float)
        ga = np.array([g for _, _, g in terms], dtype=float)
        for x in pts:
            w = np.abs(L @ x - mu) ** (2 - ga) + alpha
            A = L.T @ (L / w[:, None])
            b = L.T @ (mu / w)
            asc = float(np.max(np.sum(L * L / w[:, None], axis=0))) if k else 1.0
            bsc = float(np.max(np.sum(np.abs(L * mu[:, None]) / w[:, None], axis=0))) if k else 1.0
            # rounding of the residual is amplified by the smoothing of the weight
            amp = 1e-12 + 1e-15 * (float(np.max(np.abs(L) @ np.abs(x) + np.abs(mu))) if k else 0) / alpha * 4
            for name, p in (("dense", pd), ("sparse", ps)):
                xx = x.reshape(n, 1) if c["col"] else x
                ga_, gb, gp = p.log_distribution(xx.copy())
                close(todense(ga_), A, "%s: A (%s)" % (what, name), rtol=amp, scale=asc + 1e-300)
                close(todense(gb).reshape(-1), b, "%s: b (%s)" % (what, name), rtol=amp, scale=bsc + 1e-300)
                close(float(gp), float(np.sum(w)), "%s: penalty (%s)" % (what, name), rtol=1e-10, scale=float(np.sum(w)) + 1e-12)
    compare(dense, sparse_, model, "empty prior")
    kinds = set()
    for i, o in enumerate(c["ops"]):
        what = "after %d. %s" % (i + 1, o["op"])
        if o["op"] == "copy":
            old = (dense, sparse_, list(model))
            dense, sparse_ = SmoothPrior(alpha, n, other=dense), SparseSmoothPrior(alpha, n, other=dense)
            plain = BayesianPrior(n, plain)
        else:
            k = len(o["idx"])
            vals = np.array(o["values"], dtype=float)
            wts = {"none": None, "scalar": o["weights"][0], "list": list(o["weights"]),
                   "array": np.array(o["weights"])}[o["wkind"]]
            wv = {"none": np.ones(k), "scalar": np.full(k, o["weights"][0])}.get(o["wkind"], np.array(o["weights"]))
            if o["wkind"] == "list":
                wts = np.array(wts)      # callers pass arrays
            orders = {"default": 2, "scalar": o["orders"][0], "list": list(o["orders"])}[o["okind"]]
            ov = {"default": [2] * k, "scalar": [o["orders"][0]] * k, "list": o["orders"]}[o["okind"]]
            kw = {} if o["okind"] == "default" else {"orders": orders}
            idx = np.array(o["idx"])
            rows = np.zeros((k, n))
            mu = np.zeros(k)
            for j in range(k):
                if o["op"] in ("exact", "exact_adaptive", "sparsity"):
                    rows[j, idx[j]] = wv[j]
                    mu[j] = wv[j] * vals[j] if o["op"] != "sparsity" else 0.0
                elif o["op"] == "adaptive_sparsity":
                    rows[j, idx[j]] = 1.0 / vals[j]
                elif o["op"] == "contrast":
                    rows[j, idx[j, :]] = wv[j] / vals[j]
                    mu[j] = wv[j]
                else:
                    rows[j, idx[j, 0]] = wv[j]
                    rows[j, idx[j, 1]] = -wv[j] * vals[j]
            for p in (dense, sparse_, plain):
                if p is plain:
                    if o["op"] == "exact_adaptive":
                        continue            # not the same operation there
                    kw = {}
                    quadratic.extend((rows[j], mu[j], 2) for j in range(k))
                iv, vv = idx.copy(), vals.copy()
                if o["op"] == "exact":
                    p.add_exact_prior(iv, vv, wts, **kw)
                elif o["op"] == "exact_adaptive":
                    p.add_exact_adaptive_prior(iv, vv, wts, **kw)
                elif o["op"] == "sparsity":
                    p.add_sparsity_prior(iv, wts, **kw)
                elif o["op"] == "adaptive_sparsity":
                    p.add_adaptive_sparsity_prior(iv, vv, **kw)
                elif o["op"] == "contrast":
                    p.add_contrast_prior(iv, vv, wts, **kw)
                else:
                    p.add_ratios_prior(iv, vv, wts, **kw)
                exact(iv, idx, what + ": indices argument unchanged")
                exact(vv, vals, what + ": values argument unchanged")
            model.extend((rows[j], mu[j], ov[j]) for j in range(k))
            kinds.add(o["op"])
        compare(dense, sparse_, model, what)
    if old is not None:
        compare(old[0], old[1], old[2], "original of the copy")
    compare(SmoothPrior(alpha, n, other=plain), SparseSmoothPrior(alpha, n, other=plain), quadratic,
            "quadratic prior with the terms of a plain one")
    compare(SmoothPrior(alpha, n, other=sparse_), SparseSmoothPrior(alpha, n, other=dense), model,
            "prior copied from the other kind")
    unweighted = all(o.get("wkind") == "none" and o.get("okind") == "default" for o in c["ops"])
    return {"labels": ["ops=%d" % len(c["ops"])] + sorted(kinds) + (["copied"] if old else []),
            "nontrivial": len(kinds) >= 2 and not unweighted}
