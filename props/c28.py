"""C28: the GPU code computes the same as the CPU code (numpy stand-in for the device)."""
from pbt.common import *
from props import _prior as P
from props import _gpu as G

RULE = ("A case is either a dense or sparse complex/real matrix, a vector and a target shape, given to the six matrix helpers "
        "of both modules (the GPU ones on a numpy stand-in for the device that refuses implicit transfers), or a data set with "
        "prior, reduction and weights, fitted by the three regressions and the Fisher information with and without the device. "
        "Non-trivial: helpers: at least 2 rows or columns and a non-zero imaginary part; fits: n >= 2 and a recorded iterate.")
EXAMPLES = {"quick": 900, "thorough": 16000}
FORMATS = ["dense", "csr", "csc", "coo"]
ASSUMPTIONS = ["the device is a numpy/scipy stand-in in double precision: rounding, kernels and memory of a real GPU are not exercised"]
NAMES = ["src.models.matrix_operations", "src.models.gpu_matrix_operations", "src.models.regression",
         "src.models.error_in_variable"]


def setup(ctx):
    ctx.gpu = G.Gpu(ctx.conf, NAMES)


def strategy(st):
    @st.composite
    def helpers(draw):
        m, k = draw(size(st, 1, 7, 25)), draw(size(st, 1, 7, 25))
        return {"what": "helpers", "m": m, "k": k, "flav": draw(flavour(st)), "fmt": draw(st.sampled_from(FORMATS)),
                "real": draw(st.sampled_from([False, False, True])), "order": draw(st.sampled_from(["C", "F", "T"])),
                "a": draw(blob(st, 2 * m * k)), "v": draw(blob(st, 2 * m * k)), "rows": draw(st.booleans())}

    @st.composite
    def fit(draw):
        mode = draw(st.sampled_from(["sym", "lap", "none"]))
        n = draw(size(st, 1 if mode != "lap" else 2, 3, 5))
        t = draw(st.integers(n, n + 4))
        return {"what": draw(st.sampled_from(["bayes", "eiv", "eiv", "fim"])), "n": n, "t": t, "mode": mode,
                "prior": draw(P.strategy(st, P.nparams(mode, n))), "lam": draw(st.sampled_from([1e-1, 1e-4, 1.0, 30.0])),
                "abs_tol": draw(st.sampled_from([1e-5, 1e-13, 1e-2])), "rel_tol": draw(st.sampled_from([1e-5, 1e-16, 1e-3])),
                "max_it": draw(st.sampled_from([3, 1, 0, 2])), "verbose": draw(st.booleans()),
                "x": draw(blob(st, 2 * t * n)), "e": draw(blob(st, 2 * t * n)), "y": draw(blob(st, 2 * n * n)),
                "y0": draw(blob(st, 2 * n * n)), "w": draw(st.sampled_from(["none", "full", "diag", "halfx", "halfz"])),
                "wx": draw(blob(st, 3 * t * n)), "wz": draw(blob(st, 3 * t * n)), "sx": draw(st.sampled_from([1.0, 64.0])),
                "sz": draw(st.sampled_from([1.0, 16.0, 0.125])), "noise": draw(st.sampled_from([0.0, 0.01, 0.1]))}
    return st.one_of(helpers(), helpers(), fit())


def compare(ctx, name, to_dev, host_arg, what, *extra):
    import numpy as np
    from scipy import sparse
    cpu = getattr(ctx.gpu.cpu["src.models.matrix_operations"], name)
    gpu = getattr(ctx.gpu.gpu["src.models.gpu_matrix_operations"], name)
    want = cpu(host_arg.copy(), *extra)
    with ctx.gpu:
        arg = to_dev(host_arg)
        got = gpu(arg, *extra)
        exact(todense(arg.get()), todense(host_arg), what + ": argument unchanged")
    require(isinstance(got, G.Dev), "%s: result is not on the device" % what)
    if sparse.issparse(want):
        require(isinstance(got, G.spmatrix), "%s: dense result for a sparse matrix" % what)
        require(got._a.format == want.format, "%s: format %s, expected %s" % (what, got._a.format, want.format))
    else:
        require(not isinstance(got, G.spmatrix), "%s: sparse result for a dense matrix" % what)
    exact(todense(got._a), todense(want), what)
    require(np.iscomplexobj(got._a) == np.iscomplexobj(want), "%s: dtype %s, expected %s" % (what, got._a.dtype, want.dtype))


def check_helpers(c, ctx):
    import numpy as np
    import scipy.sparse as sp
    m, k = c["m"], c["k"]
    a, v = cplx(c["a"], c["flav"]).reshape(m, k), cplx(c["v"], c["flav"])
    if c["real"]:
        a, v = np.real(a).copy(), np.real(v).copy()
    if c["order"] == "F":
        a = np.asfortranarray(a)
    elif c["order"] == "T":
        a = np.ascontiguousarray(a.T).T
    dense = lambda o: G.wrap(o.copy(order="K"))
    compare(ctx, "vectorize_matrix", dense, a, "vectorize_matrix")
    compare(ctx, "unvectorize_matrix", dense, v, "unvectorize_matrix", (m, k))
    compare(ctx, "unvectorize_matrix", dense, v, "unvectorize_matrix", (k, m))
    compare(ctx, "make_real_vector", dense, v, "make_real_vector")
    r = np.concatenate((np.real(v), np.imag(v)))
    compare(ctx, "make_complex_vector", dense, r, "make_complex_vector")
    if c["fmt"] == "dense":
        s, dev = a, dense
    else:
        s = getattr(sp, c["fmt"] + "_matrix")(a)
        dev = getattr(G, c["fmt"] + "_matrix")
        to = dev
        dev = lambda o: to(o.copy())
    compare(ctx, "make_real_matrix", dev, s, "make_real_matrix (%s)" % c["fmt"])
    b = np.block([[np.real(a), -np.imag(a)], [np.imag(a), np.real(a)]])
    if c["fmt"] in ("csr", "csc"):
        compare(ctx, "make_complex_matrix", dev, getattr(sp, c["fmt"] + "_matrix")(b), "make_complex_matrix (%s)" % c["fmt"])
    else:
        compare(ctx, "make_complex_matrix", dense, b, "make_complex_matrix")
    return {"labels": ["helpers", c["fmt"], "real" if c["real"] else "complex", "order " + c["order"]],
            "nontrivial": max(m, k) >= 2 and not c["real"] and bool(np.any(a.imag))}


def check_fit(c, ctx):
    import numpy as np
    from props.c11 import weight
    n, t, mode = c["n"], c["t"], c["mode"]
    x0 = cplx(c["x"]).reshape(t, n)
    y = cplx(c["y"]).reshape(n, n)
    y = (y + y.T) / 2
    if mode == "lap":
        o = y - np.diag(np.diag(y))
        y = np.diag(o.sum(1)) - o
    e = cplx(c["e"]).reshape(t, n)
    x, z = x0 + c["noise"] * e, x0 @ y - c["noise"] * e[::-1]
    g = cplx(c["y0"]).reshape(n, n)
    y0 = y + 0.05 * (g + g.T)
    s = np.linalg.svd(x, compute_uv=False)
    if s[-1] < 3e-2 * s[0] or s[0] == 0:
        raise Discard("voltages do not excite every node")
    labels = [c["what"], mode]
    if c["what"] == "fim":
        from props.c08 import cov_of
        q = lambda h: [0.05 + np.mod(np.abs(u), 4.0) for u in reals(h).reshape(3, t, n)]
        wx, wz = q(c["wx"]), q(c["wz"])
        wx, wz = cov_of(wx[0], wx[1], wx[2] / 5 - 0.5), cov_of(wz[0], wz[1], wz[2] / 5 - 0.5)
        res = []
        for dev in (False, True):
            mods = ctx.gpu.gpu if dev else ctx.gpu.cpu
            o = mods["src.models.error_in_variable"].TotalLeastSquares()
            if dev:
                with ctx.gpu:
                    res.append(o.fisher_info(x.copy(), z.copy(), wx.copy(), wz.copy(), y.copy()))
            else:
                res.append(o.fisher_info(x.copy(), z.copy(), wx.copy(), wz.copy(), y.copy()))
        (f, cv), (fg, cg) = res
        for o, w in ((fg, "information"), (cg, "covariance")):
            require(isinstance(o, np.ndarray), "%s is not on the host" % w)
        close(fg, f, "information with and without the device", rtol=1e-10)
        lam = np.linalg.eigvalsh((f + f.T) / 2)
        if lam[0] > 1e-8 * lam[-1]:
            close(cg, cv, "covariance with and without the device", rtol=1e-12 * lam[-1] / lam[0] + 1e-10)
        return {"labels": labels, "nontrivial": n >= 2}
    res = []
    wx = weight(c["wx"], t * n, "full" if c["w"] == "full" else "diag", c["sx"])
    wz = weight(c["wz"], t * n, "full" if c["w"] == "full" else "diag", c["sz"])
    if c["w"] in ("none", "halfx"):
        wz = None
    if c["w"] in ("none", "halfz"):
        wx = None
    for dev in (False, True):
        mods = ctx.gpu.gpu if dev else ctx.gpu.cpu
        prior, L, mu, ga = P.build(c["prior"], P.nparams(mode, n))
        kw = dict(lambda_value=c["lam"], abs_tol=c["abs_tol"], rel_tol=c["rel_tol"], max_iterations=c["max_it"],
                  verbose=c["verbose"], **P.builders(mode))
        if c["what"] == "bayes":
            reg = mods["src.models.regression"].BayesianRegression(prior, **kw)
            args = [x.copy(), z.copy(), y0.copy()]
        else:
            reg = mods["src.models.error_in_variable"].BayesianEIVRegression(prior, **kw)
            args = [x.copy(), z.copy(), None if wx is None else wx.copy(), None if wz is None else wz.copy(), y0.copy()]
        if dev:
            with ctx.gpu:
                reg.fit(*args)
        else:
            reg.fit(*args)
        res.append(reg)
    a, b = [np.asarray(r.fitted_admittance_matrix) for r in res[:1]][0], res[1].fitted_admittance_matrix
    require(isinstance(b, np.ndarray), "the estimate is not on the host")
    ia, ib = list(res[0].iterations), list(res[1].iterations)
    for i in ib:
        require(isinstance(i.fitted_parameters, np.ndarray), "an iterate is not on the host")
        require(not isinstance(i.target_function, G.Dev), "a target is not on the host")
    # the CPU code rounds the corrections of a weighted fit to single precision
    weighted = c["what"] == "eiv" and wx is not None and wz is not None
    tol = 1e-3 if weighted else 1e-7
    H = 0.0
    k = min(len(ia), len(ib))
    for i in range(k):
        close(ib[i].fitted_parameters, ia[i].fitted_parameters, "iterate %d with and without the device" % i, rtol=tol * 10 ** i,
              atol=1e-6)
    if k == 0 or not weighted:
        require(len(ia) == len(ib), "%d iterations with the device, %d without" % (len(ib), len(ia)))
    if k:
        close(float(ib[0].target_function), float(ia[0].target_function), "first target with and without the device",
              rtol=tol, atol=1e-6 * float(np.sum(np.abs(z) ** 2)) * (1 if wz is None else float(abs(wz).max())))
    if len(ia) == len(ib):
        close(b, a, "estimate with and without the device", rtol=tol * 10 ** max(k - 1, 0), atol=1e-6)
    return {"labels": labels + [c["w"] if c["what"] == "eiv" else "", "max_it=%d" % c["max_it"]], "nontrivial": n >= 2 and k >= 1}


def check(c, ctx):
    return check_helpers(c, ctx) if c["what"] == "helpers" else check_fit(c, ctx)
