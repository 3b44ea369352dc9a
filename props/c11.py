"""C11: BayesianEIVRegression, iterate by iterate."""
from pbt.common import *
from props import _prior as P

RULE = ("A case is a regression object (random prior, lambda, tolerances, limit, parameter reduction) and 1..3 fits on "
        "different data, weights (none, diagonal, full block coupled; voltage and current weights differing by orders of "
        "magnitude) and initial guesses. Every iterate is compared with the alternating solution computed from the "
        "previous recorded iterate. Non-trivial: n >= 2, at least 2 recorded iterates, and either weights or a voltage "
        "correction of relevant size.")
EXAMPLES = {"quick": 800, "thorough": 8000}


def strategy(st):
    @st.composite
    def case(draw):
        mode = draw(st.sampled_from(["sym", "lap", "none"]))
        n = draw(size(st, 1 if mode != "lap" else 2, 4, 7))
        fits = []
        weighted = draw(st.sampled_from(["full", "diag", "none", "full", "mixed"]))
        for _ in range(draw(st.integers(1, 3))):
            t = draw(size(st, n, n + 5, n + 20))
            w = weighted if weighted != "mixed" else draw(st.sampled_from(["full", "diag", "none"]))
            fits.append({"t": t, "x": draw(blob(st, 2 * t * n)), "ex": draw(blob(st, 2 * t * n)),
                         "ez": draw(blob(st, 2 * t * n)), "y0": draw(blob(st, 2 * n * n)),
                         "re": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5])), "lay": draw(layouts(st)), "init": draw(st.sampled_from(["near", "random", "zero", "asym"])),
                         "noise": draw(st.sampled_from([0.0, 0.01, 0.1])), "w": w,
                         "wx": draw(blob(st, 3 * t * n)), "wz": draw(blob(st, 3 * t * n)),
                         "sx": draw(st.sampled_from([1.0, 64.0, 1024.0])), "sz": draw(st.sampled_from([1.0, 16.0, 0.125])),
                         "half": draw(st.sampled_from([0, 0, 0, 1, 2]))})
        return {"n": n, "mode": mode, "prior": draw(P.strategy(st, P.nparams(mode, n))),
                "lam": draw(st.sampled_from([1e-1, 1e-4, 1.0, 30.0])),
                "abs_tol": draw(st.sampled_from([1e-5, 1e-13, 1e-2, 1.0])),
                "rel_tol": draw(st.sampled_from([1e-5, 1e-16, 1e-3, 1e-2])),
                "max_it": draw(st.sampled_from([5, 1, 0, 2, 3, 10])), "verbose": draw(st.booleans()), "fits": fits,
                "y": draw(blob(st, 2 * n * n))}
    return case()


def weight(h, k, kind, scale):
    """positive definite weight, exactly representable in float32, coupling only real/imaginary part of one sample"""
    import numpy as np
    from scipy import sparse
    v = np.mod(np.abs(reals(h)).reshape(3, k), 4.0)
    q = lambda u: np.round(u * 64) / 64
    d1, d2 = q(0.25 + v[0]), q(0.25 + v[1])
    off = q(np.sqrt(d1 * d2) * (v[2] / 4 - 0.5)) if kind == "full" else np.zeros(k)
    m = sparse.bmat([[sparse.diags(d1), sparse.diags(off)], [sparse.diags(off), sparse.diags(d2)]], format="csr") * scale
    return sparse.csr_matrix(m)


def check(c, ctx):
    import numpy as np
    from scipy import sparse
    from src.models.error_in_variable import BayesianEIVRegression
    n, mode = c["n"], c["mode"]
    np_ = P.nparams(mode, n)
    prior, L, mu, ga = P.build(c["prior"], np_)
    alpha, lam = c["prior"]["alpha"], c["lam"]
    dt, E = P.params(mode, n)
    kw = dict(lambda_value=lam, abs_tol=c["abs_tol"], rel_tol=c["rel_tol"], max_iterations=c["max_it"],
              verbose=c["verbose"], **P.builders(mode))
    reg = BayesianEIVRegression(prior, **kw)
    longest, corrected = 0, 0.0
    labels = [mode, c["prior"]["cls"], "fits=%d" % len(c["fits"]), "max_it=%d" % c["max_it"]]
    for k, f in enumerate(c["fits"]):
        t = f["t"]
        x0 = cplx(f["x"]).reshape(t, n)
        y_true = cplx(c["y"]).reshape(n, n)
        y_true = (y_true + y_true.T) / 2
        if mode == "lap":
            o = y_true - np.diag(np.diag(y_true))
            y_true = np.diag(o.sum(1)) - o
        x = x0 + f["noise"] * cplx(f["ex"]).reshape(t, n)
        z = x0 @ y_true + f["noise"] * cplx(f["ez"]).reshape(t, n)
        g0 = cplx(f["y0"]).reshape(n, n)
        y0 = {"near": y_true + 0.05 * (g0 + g0.T), "random": g0 + g0.T, "zero": 0 * g0, "asym": y_true + 0.1 * g0}[f["init"]]
        re = f.get("re", 0)          # real voltages (magnitudes only), currents, initial guess
        x, z, y0 = (q.real.copy() if re & k_ else q for q, k_ in ((x, 1), (z, 2), (y0, 4)))
        s = np.linalg.svd(x, compute_uv=False)
        if s[-1] < 1e-2 * s[0] or s[0] == 0:
            raise Discard("voltages do not excite every node")
        if f["w"] == "none":
            wx = wz = None
            half = 0
        else:
            half = f["half"]
            wx, wz = weight(f["wx"], t * n, f["w"], f["sx"]), weight(f["wz"], t * n, f["w"], f["sz"])
        use = not (wx is None or half)
        ax, az = (wx if half != 1 else None), (wz if half != 2 else None)
        x, z, y0 = (layout(a, f.get("lay", 0)) for a in (x, z, y0))
        keep = [x.copy(), z.copy(), y0.copy(), None if ax is None else ax.copy(), None if az is None else az.copy()]
        reg.fit(x, z, ax, az, y0)
        for a_, b_, w in zip(keep, (x, z, y0, ax, az), ("voltages", "currents", "initial guess", "voltage weight", "current weight")):
            if a_ is not None:
                exact(todense(b_), todense(a_), w + " unchanged")
        labels.append("w=" + (f["w"] if use else "none"))
        its = list(reg.iterations)
        fin = np.asarray(reg.fitted_admittance_matrix)
        what = "fit %d" % (k + 1)
        if c["max_it"] == 0:
            exact(fin, y0, what + " with no iteration returns the initial guess")
            require(len(its) == 0, "%s recorded %d iterations, limit 0" % (what, len(its)))
            continue
        require(len(its) >= 1, what + " recorded no iteration")
        longest = max(longest, len(its))
        a, b = P.rvec(x.flatten("F")), P.rvec(z.flatten("F"))
        prev_y, prev_m = P.rvec(E @ y0.flatten("F")), np.asarray(y0, dtype=complex)
        mats = [np.asarray(i.fitted_parameters) for i in its]
        Wx, Wz = (todense(wx), todense(wz)) if use else (None, None)
        for i, (it, ym) in enumerate(zip(its, mats)):
            w = "%s iterate %d" % (what, i)
            require(it.iteration == i, "%s is numbered %r" % (w, it.iteration))
            same_shape(ym, y0, w)
            require(np.all(np.isfinite(ym)), w + " not finite")
            if mode != "none":
                exact(ym, ym.T, w + " symmetric")
            if mode == "lap":
                close(ym.sum(1), np.zeros(n), w + " row sums", rtol=1e-12, scale=float(np.max(np.abs(ym))) * n + 1e-300)
            y = P.rvec(E @ ym.flatten("F"))
            M, g, _, _ = P.quad(L, mu, ga, alpha, prev_y)
            if use:
                Y = P.rform(np.kron(prev_m.T, np.eye(t)))      # vec(V Y) = kron(Y^T, I) vec(V)
                S = Y.T @ Wz @ Y
                da = np.linalg.solve(S + Wx, Y.T @ Wz @ (Y @ a - b))
                dv = (da[:t * n] + 1j * da[t * n:]).reshape((t, n), order="F")
            else:
                N = np.vstack((prev_m, -np.eye(n)))
                proj = np.eye(2 * n) - N @ np.linalg.solve(N.conj().T @ N, N.conj().T)
                dv = x - (np.hstack((x, z)) @ proj)[:, :n]
                if np.linalg.cond(N) > 1e5:
                    raise Discard("ill conditioned projection")
            xe = x - dv
            corrected = max(corrected, float(np.max(np.abs(dv))))
            B = P.rform(np.kron(np.eye(n), xe) @ dt)
            W = Wz if use else np.eye(2 * t * n)
            H, rhs = B.T @ W @ B + lam * M, B.T @ W @ b + lam * g
            ny = float(np.linalg.norm(y))
            nW = float(np.linalg.norm(W, 2))
            nB = float(np.linalg.norm(B, 2))
            slack = 3e-7 * float(np.linalg.norm(dv)) * 2 * nW * (2 * nB * ny + float(np.linalg.norm(b)))
            scale = float(np.linalg.norm(H, 2)) * ny + float(np.linalg.norm(rhs)) + 1e-300
            close(H @ y, rhs, w + " solves the admittance sub-problem for the corrected voltages", rtol=1e-8, scale=scale,
                  atol=slack, key="iterate")
            _, _, pen, _ = P.quad(L, mu, ga, alpha, y)
            db = b - B @ y
            tgt = float(db @ W @ db) + (float(da @ Wx @ da) if use else float(np.sum(np.abs(dv) ** 2))) + lam * pen
            tol = 2 * 3e-7 * float(np.linalg.norm(dv)) * 2 * ny * nW * float(np.linalg.norm(db)) + \
                nW * (3e-7 * float(np.linalg.norm(dv)) * 2 * ny) ** 2
            close(float(it.target_function), abs(tgt), w + " target", rtol=1e-6, scale=abs(tgt), atol=tol + 1e-9 * float(b @ W @ b), key="target")
            prev_y, prev_m = y, ym
        exact(fin, mats[-1], what + ": the estimate is the last iterate")
        P.check_stopping([float(i.target_function) for i in its], c["max_it"], c["abs_tol"], c["rel_tol"], require, what)
        if k > 0 or c["verbose"]:
            fresh = BayesianEIVRegression(P.build(c["prior"], np_)[0], **dict(kw, verbose=False))
            fresh.fit(x, z, ax, az, y0)
            require(len(fresh.iterations) == len(its), "%s took %d iterations, a fresh object %d" % (what, len(its), len(fresh.iterations)))
            close(fin, fresh.fitted_admittance_matrix, what + " equals the fit of a fresh object", rtol=1e-10)
    labels += ["its=%d" % min(longest, 6)]
    return {"labels": labels, "nontrivial": n >= 2 and longest >= 2 and corrected > 1e-3}

