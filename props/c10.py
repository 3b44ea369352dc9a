"""C10: BayesianRegression, iterate by iterate."""
from pbt.common import *
from props import _prior as P

RULE = ("A case is a regression object (random prior of either class, lambda, tolerances, iteration limit, parameter "
        "reduction none/symmetric/Laplacian) and 1..3 fits of it on different data (T >= n, complex, noisy or consistent) "
        "and initial guesses. Every recorded iterate is checked against the normal equations at the previous one. "
        "Non-trivial: n >= 2, at least 3 recorded iterates in some fit.")
EXAMPLES = {"quick": 900, "thorough": 8000}


def strategy(st):
    @st.composite
    def case(draw):
        mode = draw(st.sampled_from(["sym", "lap", "none"]))
        n = draw(size(st, 1 if mode != "lap" else 2, 4, 7))
        fits = []
        for _ in range(draw(st.integers(1, 3))):
            t = draw(size(st, n, n + 6, n + 20))
            fits.append({"t": t, "x": draw(blob(st, 2 * t * n)), "e": draw(blob(st, 2 * t * n)),
                         "y0": draw(blob(st, 2 * n * n)), "init": draw(st.sampled_from(["near", "random", "zero"])),
                         "re": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5])), "lay": draw(layouts(st)), "noise": draw(st.sampled_from([0.0, 0.01, 1.0]))})
        return {"n": n, "mode": mode, "prior": draw(P.strategy(st, P.nparams(mode, n))),
                "lam": draw(st.sampled_from([1e-1, 1e-4, 1.0, 30.0])),
                "abs_tol": draw(st.sampled_from([1e-5, 1e-13, 1e-2, 1.0])),
                "rel_tol": draw(st.sampled_from([1e-5, 1e-16, 1e-3, 1e-2])),
                "max_it": draw(st.sampled_from([8, 1, 0, 2, 3, 15])), "verbose": draw(st.booleans()), "fits": fits,
                "y": draw(blob(st, 2 * n * n))}
    return case()


def data(c, f, n):
    import numpy as np
    t = f["t"]
    x = cplx(f["x"]).reshape(t, n)
    y = cplx(c["y"]).reshape(n, n)
    y = (y + y.T) / 2
    if c["mode"] == "lap":
        y = np.diag((y - np.diag(np.diag(y))).sum(1)) - (y - np.diag(np.diag(y)))
    e = cplx(f["e"]).reshape(t, n)
    z = x @ y + f["noise"] * e
    y0 = {"near": y + 0.1 * cplx(f["y0"]).reshape(n, n), "random": cplx(f["y0"]).reshape(n, n),
          "zero": np.zeros((n, n), dtype=complex)}[f["init"]]
    return x, z, y0


def check(c, ctx):
    import numpy as np
    from src.models.regression import BayesianRegression
    n, mode = c["n"], c["mode"]
    np_ = P.nparams(mode, n)
    prior, L, mu, ga = P.build(c["prior"], np_)
    alpha, lam = c["prior"]["alpha"], c["lam"]
    dt, E = P.params(mode, n)
    kw = dict(lambda_value=lam, abs_tol=c["abs_tol"], rel_tol=c["rel_tol"], max_iterations=c["max_it"],
              verbose=c["verbose"], **P.builders(mode))
    reg = BayesianRegression(prior, **kw)
    longest = 0
    for k, f in enumerate(c["fits"]):
        x, z, y0 = data(c, f, n)
        re = f.get("re", 0)          # real voltages (magnitudes only), currents, initial guess
        x, z, y0 = (q.real.copy() if re & k_ else q for q, k_ in ((x, 1), (z, 2), (y0, 4)))
        t = f["t"]
        A = P.rform(np.kron(np.eye(n), x) @ dt)
        b = P.rvec(z.flatten("F"))
        H0 = A.T @ A
        s = np.linalg.svd(x, compute_uv=False)
        if s[-1] < 1e-3 * s[0] or s[0] == 0:
            raise Discard("voltages do not excite every node")
        x, z, y0 = (layout(a, f.get("lay", 0)) for a in (x, z, y0))
        keep = (x.copy(), z.copy(), y0.copy())
        reg.fit(x, z, y0)
        for a_, b_, w in zip(keep, (x, z, y0), ("voltages", "currents", "initial guess")):
            exact(b_, a_, w + " unchanged")
        its = list(reg.iterations)
        fin = np.asarray(reg.fitted_admittance_matrix)
        what = "fit %d" % (k + 1)
        if c["max_it"] == 0:
            exact(fin, y0, what + " with no iteration returns the initial guess")
            require(len(its) == 0, "%s recorded %d iterations, limit 0" % (what, len(its)))
            continue
        require(len(its) >= 1, what + " recorded no iteration")
        longest = max(longest, len(its))
        prev = P.rvec(E @ y0.flatten("F"))
        mats = [np.asarray(i.fitted_parameters) for i in its]
        obj_prev = None
        for i, (it, ym) in enumerate(zip(its, mats)):
            w = "%s iterate %d" % (what, i)
            require(it.iteration == i, "%s is numbered %r" % (w, it.iteration))
            same_shape(ym, y0, w)
            require(np.all(np.isfinite(ym)), w + " not finite")
            if mode != "none":
                exact(ym, ym.T, w + " symmetric")
            if mode == "lap":
                close(ym.sum(1), np.zeros(n), w + " row sums", rtol=1e-12, scale=float(np.max(np.abs(ym))) * n + 1e-300)
            y = P.rvec(E @ ym.flatten("F"))
            M, g, _, _ = P.quad(L, mu, ga, alpha, prev)
            H, rhs = H0 + lam * M, A.T @ b + lam * g
            scale = float(np.linalg.norm(H, 2) * np.linalg.norm(y) + np.linalg.norm(rhs)) + 1e-300
            close(H @ y, rhs, w + " solves the MAP equations at the previous iterate", rtol=1e-9, scale=scale)
            _, _, pen, r = P.quad(L, mu, ga, alpha, y)
            db = b - A @ y
            tgt = float(db @ db) + lam * pen
            close(float(it.target_function), abs(tgt), w + " target", rtol=1e-8,
                  scale=abs(tgt) + 1e-6 * float(b @ b + (np.linalg.norm(A, 2) * np.linalg.norm(y)) ** 2) + 1e-300)
            obj = 0.5 * float(db @ db) + lam * P.majorised(ga, alpha, r)
            if obj_prev is not None:
                require(obj <= obj_prev + 1e-8 * (abs(obj_prev) + float(b @ b)) + 1e-12, "%s increases the majorised objective: %r -> %r" % (w, obj_prev, obj))
            obj_prev, prev = obj, y
        exact(fin, mats[-1], what + ": the estimate is the last iterate")
        P.check_stopping([float(i.target_function) for i in its], c["max_it"], c["abs_tol"], c["rel_tol"], require, what)
        if k > 0 or c["verbose"]:
            fresh = BayesianRegression(P.build(c["prior"], np_)[0], **dict(kw, verbose=False))
            fresh.fit(x, z, y0)
            require(len(fresh.iterations) == len(its), "%s took %d iterations, a fresh object %d" % (what, len(its), len(fresh.iterations)))
            close(fin, fresh.fitted_admittance_matrix, what + " equals the fit of a fresh object", rtol=1e-10)
    labels = [mode, c["prior"]["cls"], "fits=%d" % len(c["fits"]), "max_it=%d" % c["max_it"], "its=%d" % min(longest, 9)]
    return {"labels": labels, "nontrivial": n >= 2 and longest >= 3}
