"""C26: bayesian_eiv and eiv_fim, single- and three-phase."""
from pbt.common import *

RULE = ("A case is a symmetric or Laplacian system of 2..3 nodes (or three sequences in any column order) with noisy "
        "measurements, different noise levels for voltage and current, ratings differing between nodes, prior flags, "
        "lambda, iteration limit, weighted or not, synchronised or not. The result is compared with the regression run on "
        "independently prepared data, weights and prior, with separate runs per sequence, with relabelled nodes and with "
        "equivalent noise descriptions; or a Fisher analysis request. Non-trivial: weighted with ratings that differ, or "
        "sequence-wise, and at least one iteration; or a Fisher analysis with at least 2 nodes.")
EXAMPLES = {"quick": 480, "thorough": 6000}
ASSUMPTIONS = ["The covariances, the prior and the regression themselves are decided by C05, C27 and C11; C26 decides how they "
               "are combined."]


def strategy(st):
    @st.composite
    def case(draw):
        fim = draw(st.integers(0, 3)) == 0
        seq = (not fim) and draw(st.sampled_from([False, False, True]))
        n = draw(st.integers(2, 3))
        K = 3 if seq else 1
        exact = not fim and draw(st.integers(0, 23)) == 23       # lines of the 56-bus network, by position
        if exact:
            n = 29 if seq else draw(st.integers(29, 31))
        t = draw(st.integers(2 * n + 3, 2 * n + 7))
        return {"fim": fim, "seq": seq, "n": n, "t": t, "exact": exact, "lap": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6)),
                "ids": draw(st.permutations([k for k in range(3) for _ in range(n)])) if seq else None,
                "it": 1 if exact else draw(st.sampled_from([2, 3, 5] if seq else [2, 1, 3])),
                "tol": draw(st.sampled_from([None, 1e-3, 0.03, 0.3])) if seq and not exact else None, "w": draw(st.sampled_from([True, True, False])),
                "sync": draw(st.sampled_from([True, True, False])),
                "vs": draw(st.sampled_from([1e-4, 1e-3, 1e-2])), "is": draw(st.sampled_from([1e-3, 1e-2])),
                "vp": draw(st.sampled_from([1e-4, 1e-3, 5e-3])), "ip": draw(st.sampled_from([1e-4, 1e-3, 5e-3])),
                "rate": draw(st.lists(st.sampled_from([1.0, 0.2, 3.0, 0.05]), min_size=n * K, max_size=n * K)),
                "lam": draw(st.sampled_from([1e2, 1e6, 1e10] if exact else [1e-6, 1e-2, 1.0])), "lp": draw(st.sampled_from([20.0, 200.0, 1.0])),
                "flags": draw(st.lists(st.booleans(), min_size=3, max_size=3)), "asym": draw(st.booleans()),
                "perm": draw(st.permutations(list(range(n)))), "verbose": draw(st.booleans()), "ns": draw(st.sampled_from([None, 3000])),
                "lay": draw(layouts(st)), "var": draw(st.sampled_from([0.3, 0.05])), "scale": draw(st.sampled_from([1.0, 30.0]))}
    return case()


def make(c, K):
    import numpy as np
    n, t = c["n"], c["t"]
    rng = np.random.RandomState(c["seed"] % 100000)
    cols = np.array(c["ids"]) if c["seq"] else np.zeros(n, dtype=int)
    V = 1 + c["var"] * (rng.randn(t, n * K) + 1j * rng.randn(t, n * K))
    Y = np.zeros((n * K, n * K), dtype=complex)
    for k in range(K):
        m = cols == k
        y = (0.5 + rng.rand(n, n)) * np.exp(-1j * (0.3 + 0.8 * rng.rand(n, n))) * c["scale"]
        y = -(y + y.T) / 2
        y -= np.diag(np.diag(y))
        y -= np.diag(y.sum(1) * (1 if c["lap"] else 1.3))
        Y[np.ix_(m, m)] = y
    I = V @ Y
    noise = lambda x, m, p: x * (1 + m * rng.randn(*x.shape)) * np.exp(1j * p * rng.randn(*x.shape))
    V, I = noise(V, c["vs"], c["vp"]), noise(I, c["is"], c["ip"])
    y0 = Y + 0.05 * c["scale"] * (rng.randn(*Y.shape) + 1j * rng.randn(*Y.shape)) * ((Y != 0) | (c["seq"] and c["seed"] % 2 == 0))
    if c.get("tol"):                 # sequences start at different distances and stop at different iterations
        for k in range(K):
            m = np.ix_(cols == k, cols == k)
            y0[m] = Y[m] + (y0[m] - Y[m]) * ([1.0, 1.0, 30.0] if c["seed"] % 2 else [30.0, 30.0, 1e-3])[(c["seed"] // 2 + k) % 3]
    if not c["asym"]:
        y0 = (y0 + y0.T) / 2
    V, I, Y, y0 = (layout(a, c.get("lay", 0)) for a in (V, I, Y, y0))
    return V, I, Y, y0, cols


def check(c, ctx):
    import numpy as np
    from conf import identification as cfg
    old = {k: getattr(cfg, k) for k in ("lambda_eiv", "lambdaprime", "use_tls_diag", "contrast_each_row", "regularize_diag", "rel_tol")}
    try:
        if c.get("tol"):
            cfg.rel_tol = c["tol"]
        cfg.lambda_eiv, cfg.lambdaprime = c["lam"], c["lp"]
        cfg.use_tls_diag, cfg.contrast_each_row, cfg.regularize_diag = c["flags"]
        return fim(c, ctx) if c["fim"] else eiv(c, ctx)
    finally:
        for k, v in old.items():
            setattr(cfg, k, v)


def eiv(c, ctx):
    import numpy as np
    from scipy import sparse
    from conf import identification as cfg
    from src.identification import run, run3ph
    from src.models import noise_transformation as nt
    from src.models.error_in_variable import BayesianEIVRegression
    from src.models.matrix_operations import duplication_matrix, transformation_matrix, elimination_sym_matrix, \
        elimination_lap_matrix
    K = 3 if c["seq"] else 1
    n, lap = c["n"], c["lap"]
    V, I, Y, y0, cols = make(c, K)
    rate = np.array(c["rate"])
    vsd, isd = np.complex128(c["vs"] + 1j * c["vp"]), np.complex128(c["is"] + 1j * c["ip"])
    mod = run3ph if c["seq"] else run
    ids = cols.copy() if c["seq"] else None
    true = Y if c["exact"] else None
    keep = [a.copy() for a in (V, I, y0, rate, Y)]

    def go(name="pbt26", v=V, i=I, ids=ids, vs=vsd, cs=isd, r=rate, y=y0, it=c["it"], m=mod, verbose=False, known=None):
        return m.bayesian_eiv(name, v, i, ids, vs, cs, r, y, known if known is not None else true, lap, c["w"], it, c["sync"], verbose)
    yr, its = go(verbose=c["verbose"])
    for a, b, nm in zip(keep, (V, I, y0, rate, Y), ("voltages", "currents", "initial estimate", "ratings", "known admittances")):
        exact(b, a, nm + " unchanged")
    yr = np.asarray(yr)
    sc = float(np.max(np.abs(Y)))
    require(yr.shape == Y.shape, "estimate of shape %r" % (yr.shape,))
    require(bool(np.all(np.isfinite(yr))), "estimate not finite")
    mag = float(np.max(np.abs(yr))) + sc
    if mag > 1e4 * sc:
        raise Discard("estimate diverged")
    close(yr, yr.T, "symmetry", rtol=1e-10, scale=mag)
    require(1 <= len(its) <= c["it"], "%d iterations recorded, limit %d" % (len(its), c["it"]))
    mats = [np.asarray(i.fitted_parameters) for i in its]
    for k in range(K):
        m = cols == k
        if lap:
            close(yr[np.ix_(m, m)].sum(0), np.zeros(n), "column sums of a Laplacian estimate", rtol=0, atol=1e-9 * n * mag)
    if c["seq"]:
        x = np.not_equal.outer(cols, cols)
        require(not np.any(yr[x]), "sequences are coupled")
        sep = []
        for k in range(K):
            m = cols == k
            o, oi = go("pbt26s", V[:, m], I[:, m], None, r=rate[m], y=y0[np.ix_(m, m)], m=run,
                       known=Y[np.ix_(m, m)] if c["exact"] else None)
            exact(yr[np.ix_(m, m)], np.asarray(o), "sequence %d identified alone" % k)
            sep.append(oi)
        require(len(its) == min(len(s) for s in sep), "%d iterations recorded, the sequences have %r" % (len(its), [len(s) for s in sep]))
        for j, it in enumerate(its):
            f = np.asarray(it.fitted_parameters)
            require(not np.any(f[x]), "iteration %d couples the sequences" % j)
            for k in range(K):
                m = cols == k
                exact(f[np.ix_(m, m)], np.asarray(sep[k][j].fitted_parameters), "iteration %d of sequence %d" % (j, k))
            close(it.target_function, sum(s[j].target_function for s in sep), "target of iteration %d" % j, rtol=1e-10)
        go()
    else:
        exact(mats[-1], yr, "the estimate is the last iterate")
        # prepared independently
        nodes = n
        kw = dict(lambda_value=c["lam"], abs_tol=cfg.abs_tol, rel_tol=cfg.rel_tol, max_iterations=c["it"], verbose=False)
        if lap:
            reg = lambda p: BayesianEIVRegression(p, dt_matrix_builder=lambda k: duplication_matrix(k) @ transformation_matrix(k),
                                                  e_matrix_builder=lambda k: elimination_lap_matrix(k) @ elimination_sym_matrix(k), **kw)
        else:
            reg = lambda p: BayesianEIVRegression(p, dt_matrix_builder=duplication_matrix, e_matrix_builder=elimination_sym_matrix, **kw)
        prior = run.build_complex_prior(nodes, c["lp"], y0.copy(), lap, *c["flags"])
        if c["exact"]:
            prior = run.add_known_lines(nodes, prior, c["lp"], Y.copy(), laplacian=lap, prior_type="optimal")
        v, i = V, I
        wv = wi = None
        if c["w"] and c["sync"]:
            wv = nt.average_true_noise_covariance(V.copy(), np.full(n, c["vs"]), c["vp"], True)
            wi = nt.average_true_noise_covariance(I.copy(), c["is"] * rate, c["ip"], True)
        if c["w"] and not c["sync"]:      # only magnitudes and phases between current and voltage are known
            v, i = np.abs(V) + 0j, I * np.exp(-1j * np.angle(V))
            m, s_ = np.abs(V).T.reshape(-1), 100 * c["vp"]
            wv = sparse.diags(np.concatenate((np.full(m.size, c["vs"] ** -2.0), (m * s_) ** -2.0))).tocsr()
            wi = nt.naive_noise_covariance(i.copy(), c["is"] * rate, c["ip"], True)
            f = np.exp(1j * np.random.RandomState(c["seed"] % 1000).randn(*V.shape))
            o, oi = go("pbt26s", V * f, I * f)
            if len(oi) == len(its):
                close(np.asarray(o), yr, "estimate from measurements with other sensor clocks", rtol=1e-3, scale=mag)
        if lap:
            v = v - v.mean()
        else:
            v, i = v - v.mean(0), i - i.mean(0)
        r = reg(prior)
        r.fit(v, i, wv, wi, y0.copy())
        if not c["sync"] and len(r.iterations) != len(its):
            raise Discard("stopped at another iteration")
        close(yr, np.asarray(r.fitted_admittance_matrix), "estimate from the centred data and the weighted covariances", rtol=1e-5 if c["sync"] else 1e-3, scale=mag)
        require(len(r.iterations) == len(its), "%d iterations, expected %d" % (len(its), len(r.iterations)))
        close([it.target_function for it in its], [it.target_function for it in r.iterations], "recorded targets",
              rtol=1e-5 if c["sync"] else 0.05)
        # relabelling
        p = list(c["perm"])
        pp = np.ix_(p, p)
        if not c["exact"] and (not c["asym"] or not c["flags"][0]):
            o, oi = go("pbt26s", V[:, p], I[:, p], r=rate[p], y=y0[pp])
            if len(oi) == len(its):
                close(np.asarray(o), yr[pp], "estimate for relabelled nodes", rtol=1e-4 if c["sync"] else 1e-3, scale=mag)
        go()
    # the same noise described differently, and noise levels that must not matter
    if c["w"]:
        o, _ = go("pbt26s", cs=np.complex128(4 * c["is"] + 1j * c["ip"]), r=rate / 4)
        close(np.asarray(o), yr, "rating and relative deviation only matter as a product", rtol=1e-5, scale=mag)
        if c["seq"]:
            go()
    else:
        o, oi = go("pbt26s", vs=vsd * 7, cs=isd * 3 + 0.1j, r=rate[::-1] * 2)
        exact(np.asarray(o), yr, "noise levels in an unweighted identification")
        if c["seq"]:
            go()
    if c["exact"]:
        o, _ = go("pbt26s", known=Y * 1.5)
        effect = float(np.max(np.abs(np.asarray(o) - yr))) > 1e-3 * mag
        go()
    # stored
    b, bi = go(it=0)
    exact(np.asarray(b), yr, "estimate read back")
    require(len(bi) == len(its), "%d iterations read back, %d recorded" % (len(bi), len(its)))
    for s, t_ in zip(its, bi):
        exact(np.asarray(t_.fitted_parameters), np.asarray(s.fitted_parameters), "iterate read back")
        require(t_.target_function == s.target_function, "target read back")
    return {"labels": ["seq" if c["seq"] else "single", "lap" if lap else "sym", "weighted" if c["w"] else "unweighted", "sync" if c["sync"] else "unsync",
                       "it=%d" % c["it"]] + (["sequences stop differently"] if c["seq"] and len(set(len(o) for o in sep)) > 1 else []) + (["known lines" + (" matter" if effect else "")] if c["exact"] else []),
            "nontrivial": c["seq"] or (c["w"] and len(set(c["rate"])) > 1)}


def fim(c, ctx):
    import numpy as np
    from src.identification import run
    from src.models import noise_transformation as nt
    from src.models.error_in_variable import TotalLeastSquares
    n, lap = c["n"], c["lap"]
    V, I, Y, y0, cols = make(c, 1)
    rate = np.array(c["rate"])
    vsd, isd = np.complex128(c["vs"] + 1j * c["vp"]), np.complex128(c["is"] + 1j * c["ip"])
    keep = [a.copy() for a in (V, I, Y, rate)]
    np.random.seed(c["seed"])
    f, cov, e = run.eiv_fim("pbt26", V, I, vsd, isd, rate, Y, c["ns"], lap, c["verbose"])
    for a, b, nm in zip(keep, (V, I, Y, rate), ("voltages", "currents", "admittance", "ratings")):
        exact(b, a, nm + " unchanged")
    sv = nt.average_true_noise_covariance(V.copy(), np.full(n, c["vs"]), c["vp"], False)
    si = nt.average_true_noise_covariance(I.copy(), c["is"] * rate, c["ip"], False)
    v, i = (V - V.mean(), I) if lap else (V - V.mean(0), I - I.mean(0))
    wf, wc = TotalLeastSquares().fisher_info(v, i, sv, si, Y)
    f, cov = np.asarray(f), np.asarray(cov)
    close(f, np.asarray(wf), "information of the centred data and the weighted covariances", rtol=1e-9)
    lam = np.linalg.eigvalsh((f + f.T) / 2)
    if lam[0] <= 1e-10 * lam[-1]:
        raise Discard("information nearly singular")
    close(cov @ f, np.eye(len(f)), "the covariance is the inverse of the information", rtol=0, atol=1e-12 * len(f) * lam[-1] / lam[0] + 1e-9)
    y = np.concatenate((Y.flatten("F").real, Y.flatten("F").imag))
    rng = np.random.RandomState(c["seed"] % 1000)
    w, u = np.linalg.eigh((cov + cov.T) / 2)
    s = y + (rng.randn(20000, len(y)) * np.sqrt(np.maximum(w, 0))) @ u.T
    ref = np.std(np.linalg.norm(s - y, axis=1)) / np.linalg.norm(y)
    close(float(e), float(ref), "deviation of the relative error", rtol=0.15)
    np.random.seed(c["seed"] + 5)
    f2, c2, e2 = run.eiv_fim("pbt26s", V, I, vsd, isd, rate, Y, c["ns"], lap, False)
    exact(np.asarray(f2), f, "information of a second call")
    require(float(e2) == float(e), "error level depends on earlier random numbers")
    b = run.eiv_fim("pbt26", None, None, vsd, isd, rate, Y, c["ns"], lap, c["verbose"])
    exact(np.asarray(b[0]), f, "information read back")
    exact(np.asarray(b[1]), cov, "covariance read back")
    require(float(b[2]) == float(e), "error level read back")
    # the same noise described differently
    f3, _, _ = run.eiv_fim("pbt26s", V, I, vsd, np.complex128(4 * c["is"] + 1j * c["ip"]), rate / 4, Y, 10, lap, False)
    close(np.asarray(f3), f, "rating and relative deviation only matter as a product", rtol=1e-8)
    return {"labels": ["fim", "lap" if lap else "sym"], "nontrivial": n >= 2 and len(set(c["rate"])) > 1}
