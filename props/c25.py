"""C25: standard_methods (OLS, TLS, Lasso) on clean and noisy data, single- and three-phase."""
from pbt.common import *

RULE = ("A case is an admittance (symmetric, Laplacian or general) of 2..5 nodes, an excitation of T > n rows of random "
        "conditioning, constant offsets, noise or none, an iteration limit, and either one system or three sequences in any "
        "column order. Non-trivial: at least 2 nodes, at least one Lasso iteration, nonzero offsets or sequence-wise "
        "identification.")
EXAMPLES = {"quick": 800, "thorough": 8000}


def strategy(st):
    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(["sym", "lap", "gen", "sym"]))
        seq = draw(st.sampled_from([False, False, True]))
        n = draw(size(st, 2, 3 if seq else 5, 4 if seq else 9))
        t = draw(st.integers(n + 2, n + 12))
        ids = [k for k in range(3) for _ in range(n)]
        return {"kind": kind, "n": n, "t": t, "seq": seq, "y": draw(blob(st, 2 * n * n * (3 if seq else 1))),
                "v": draw(blob(st, 2 * n * t * (3 if seq else 1))), "e": draw(blob(st, 2 * n * t * (3 if seq else 1))),
                "off": draw(st.sampled_from([0.0, 1.0, 30.0])), "noise": draw(st.sampled_from([0.0, 0.0, 1e-3, 0.1])),
                "it": draw(st.sampled_from([5, 1, 0, 3])), "verbose": draw(st.booleans()),
                "ids": draw(st.permutations(ids)) if seq else None, "via3": draw(st.booleans()),
                "ysc": draw(st.sampled_from([1.0, 100.0, 0.01])), "perm": draw(st.permutations(list(range(n)))),
                "lay": draw(layouts(st)), "small": draw(st.sampled_from([1.0, 0.05]))}
    return case()


def system(c, k):
    import numpy as np
    n, t = c["n"], c["t"]
    y = cplx(c["y"])[k * n * n:(k + 1) * n * n].reshape(n, n) * c["ysc"]
    if c["kind"] != "gen":
        y = (y + y.T) / 2
    if c["kind"] == "lap":
        y = y - np.diag(y.sum(1))
    rng = np.random.RandomState(k + 10 * n)
    v = (rng.randn(t, n) + 1j * rng.randn(t, n) + 0.5 * cplx(c["v"])[k * n * t:(k + 1) * n * t].reshape(t, n)) * c["small"]
    e = cplx(c["e"])[k * n * t:(k + 1) * n * t].reshape(t, n)
    return y, v, e


def check(c, ctx):
    import os
    import numpy as np
    from src.identification import run, run3ph
    n, t, lap = c["n"], c["t"], c["kind"] == "lap"
    K = 3 if c["seq"] else 1
    cols = np.array(c["ids"]) if c["seq"] else np.zeros(n, dtype=int)
    V, I = np.zeros((t, n * K), dtype=complex), np.zeros((t, n * K), dtype=complex)
    Y = np.zeros((n * K, n * K), dtype=complex)
    conds = []
    for k in range(K):
        y, v, e = system(c, k)
        i = v @ y
        v = v + c["noise"] * e[::-1] * 0.1 * c["small"]
        i = i + c["noise"] * e * float(np.max(np.abs(y))) * c["small"]
        s = np.linalg.svd(v - (v.mean() if lap else v.mean(0)), compute_uv=False)
        if s[-1] < 1e-3 * s[0] or s[0] == 0:
            raise Discard("excitation without full rank")
        if not np.any(y):
            raise Discard("no admittance")
        conds.append(s[0] / s[-1])
        if c["off"]:
            if lap:
                v = v + c["off"] * (1 - 0.3j)          # equal voltages everywhere drive no current
            else:
                v = v + c["off"] * np.exp(1j * np.arange(n))
                i = i + c["off"] * np.exp(2j + 1j * np.arange(n)) * c["ysc"]
        V[:, cols == k], I[:, cols == k] = v, i
        Y[np.ix_(cols == k, cols == k)] = y
    V, I = layout(V, c.get("lay", 0)), layout(I, c.get("lay", 0))
    V0, I0 = V.copy(), I.copy()
    name = "pbt25"
    mod = run3ph if c["seq"] or c["via3"] else run
    ids = cols.copy() if c["seq"] else None
    res = mod.standard_methods(name, V, I, ids, lap, c["it"], c["verbose"])
    exact(V, V0, "voltages unchanged")
    exact(I, I0, "currents unchanged")
    if ids is not None:
        exact(ids, cols, "phase indices unchanged")
    ols, tls, las = [np.asarray(r) for r in res]
    sc = float(np.max(np.abs(Y)))
    cond = max(conds)
    off = 1 + c["off"] / float(np.max(np.abs(V0 - V0.mean(0))) + 1e-300)
    for r, nm in ((ols, "OLS"), (tls, "TLS"), (las, "Lasso")):
        require(r.shape == Y.shape, "%s estimate of shape %r" % (nm, r.shape))
        if c["seq"]:
            m = np.not_equal.outer(cols, cols)
            require(not np.any(r[m]), "%s couples different sequences" % nm)
    if c["noise"] == 0:
        close(ols, Y, "OLS on clean data", rtol=1e-11 * cond * off, scale=sc)
        ti = (1 + sc * n) * (1 + 1 / sc)
        close(tls, Y, "TLS on clean data", rtol=1e-12 * cond * off * ti ** 2, scale=sc)
    if c["it"] > 0:
        close(las, las.T, "symmetry of the Lasso estimate", rtol=1e-12, scale=sc)
        if lap:
            for k in range(K):
                b = las[np.ix_(cols == k, cols == k)]
                close(b.sum(0), np.zeros(n), "column sums of the Lasso estimate", rtol=0, atol=1e-11 * n * sc)
        if c["noise"] == 0 and c["kind"] != "gen" and c["ysc"] <= 1.0 and c["small"] == 1.0 and cond < 100:
            close(las, Y, "Lasso on clean data", rtol=1e-4, scale=sc)
    else:
        exact(las, ols, "Lasso without iterations")
    back = mod.standard_methods(name, None, I if c["verbose"] else None, ids, lap, c["it"], c["verbose"])
    for r, b, nm in zip((ols, tls, las), back, ("OLS", "TLS", "Lasso")):
        exact(b, r, nm + " estimate read back")
    # least squares, whatever the noise
    for k in range(K):
        a = cols == k
        if c["seq"]:
            one = run.standard_methods("pbt25s", V[:, a], I[:, a], None, lap, c["it"], False)
            for r, b, nm in zip((ols, tls, las), one, ("OLS", "TLS", "Lasso")):
                exact(r[np.ix_(a, a)], np.asarray(b), "%s of sequence %d" % (nm, k))
        v, i = V[:, a], I[:, a]
        v = v - (v.mean() if lap else v.mean(0))
        i = i if lap else i - i.mean(0)
        want = np.linalg.lstsq(v, i, rcond=None)[0]
        close(ols[np.ix_(a, a)], want, "OLS of system %d" % k, rtol=1e-10 * cond * off, scale=sc + float(np.max(np.abs(want))))
        # TLS: smallest singular directions of the joint data
        u, s, vh = np.linalg.svd(np.hstack((v, i)))
        if s[n - 1] - s[n] > 1e-6 * s[0]:
            w = vh.conj().T[:, n:]
            if np.linalg.cond(w[n:]) < 1e6:
                want = -w[:n] @ np.linalg.inv(w[n:])
                r = tls[np.ix_(a, a)]
                gap = (s[0] / (s[n - 1] - s[n])) * np.linalg.cond(w[n:])
                close(r, want, "TLS of system %d" % k, rtol=1e-10 * off * gap * (1 + float(np.max(np.abs(want)))), scale=sc + float(np.max(np.abs(want))))
    if not c["seq"]:
        # names of the nodes do not matter
        p = list(c["perm"])
        other = run.standard_methods("pbt25s", V[:, p], I[:, p], None, lap, c["it"], False)
        pp = np.ix_(p, p)
        close(np.asarray(other[0]), ols[pp], "OLS of relabelled nodes", rtol=1e-10 * cond * off, scale=sc + float(np.max(np.abs(ols))))
        if c["noise"] and cond < 50 and np.max(np.abs(las)) < 50 * sc:
            close(np.asarray(other[2]), las[pp], "Lasso of relabelled nodes", rtol=1e-6 * off, scale=float(np.max(np.abs(las))))
        if mod is run3ph:
            one = run.standard_methods("pbt25s", V, I, None, lap, c["it"], False)
            for r, b, nm in zip((ols, tls, las), one, ("OLS", "TLS", "Lasso")):
                close(r, np.asarray(b), nm + " of one system identified as three-phase", rtol=1e-9 * cond * off, scale=sc + float(np.max(np.abs(b))))
    return {"labels": [c["kind"], "seq" if c["seq"] else "single", "it=%d" % c["it"], "noise=%g" % c["noise"]],
            "nontrivial": c["it"] > 0 and (c["seq"] or c["off"] > 0)}
