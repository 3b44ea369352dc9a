"""C27: prior builders of the identification."""
from pbt.common import *
from props import _prior as P

RULE = ("A case is an initial estimate (2..6 nodes, complex, not symmetric, no zero entries), all flag combinations, "
        "lambda prime, and one of: the contrast prior (optionally with known lines on 29..31 nodes, optimal or suboptimal, "
        "right or wrong), the exact-admittance prior (single- and three-phase), the Lasso prior. The quadratic is compared "
        "with the terms written down independently at several points, including the estimate itself. Non-trivial: at least 3 "
        "nodes and an estimate that is not symmetric.")
EXAMPLES = {"quick": 700, "thorough": 10000}


def strategy(st):
    @st.composite
    def case(draw):
        what = draw(st.sampled_from(["complex"] * 8 + ["loads", "loads3", "lasso", "lasso", "lasso3"] + ["known"]))
        n = draw(st.integers(29, 31)) if what == "known" else draw(size(st, 2, 6, 14))
        if what == "loads3":
            n = draw(st.integers(1, 2))
        m = 3 * n if what == "loads3" else n
        return {"what": what, "n": n, "y": draw(blob(st, 2 * m * m)), "asym": draw(st.sampled_from([True, True, False])),
                "lap": draw(st.booleans()), "flags": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
                "lp": draw(st.sampled_from([200.0, 1.0, 0.5])), "x": draw(blob(st, 2 * m * m)), "sc": draw(st.sampled_from([1.0, 1000.0, 1e-3])),
                "type": draw(st.sampled_from(["optimal", "suboptimal", "optimal wrong", "suboptimal wrong", "none"])),
                "neg": draw(st.booleans())}
    return case()


def compare(prior, L, mu, ga, alpha, pts, what):
    import numpy as np
    for k, x in enumerate(pts):
        A, b, pen, r = P.quad(L, mu, ga, alpha, x)
        w = np.abs(r) ** (2 - ga) + alpha
        gA, gb, gp = prior.log_distribution(x.copy())
        gA, gb = todense(gA), todense(gb).reshape(-1)
        s = float(np.max(np.sum(L * L / w[:, None], axis=0)))
        sb = float(np.max(np.sum(np.abs(L * mu[:, None]) / w[:, None], axis=0)))
        # the residual of a fulfilled term is rounding, which the smoothing amplifies
        eps = 1e-15 * (float(np.max(np.abs(L) @ np.abs(x) + np.abs(mu))) + 1)
        amp = 1e-10 + 20 * eps / alpha
        require(bool(np.all(np.isfinite(gA)) and np.all(np.isfinite(gb)) and np.isfinite(gp)), "%s: not finite" % what)
        close(gA, gA.T, what + ": symmetric", rtol=1e-12, scale=s)
        ev = np.linalg.eigvalsh((gA + gA.T) / 2)
        require(ev[0] >= -1e-10 * ev[-1], "%s: not positive semidefinite (%g)" % (what, ev[0]))
        close(gA, A, "%s: A at point %d" % (what, k), rtol=amp, scale=s + 1e-300)
        close(gb, b, "%s: b at point %d" % (what, k), rtol=amp, scale=sb + s + 1e-300)
        close(float(gp), pen, "%s: penalty at point %d" % (what, k), rtol=1e-9, atol=len(mu) * eps * 4)


def check(c, ctx):
    import numpy as np
    from src.identification import run, run3ph
    from src.models.matrix_operations import duplication_matrix, transformation_matrix, elimination_sym_matrix, \
        elimination_lap_matrix
    what, lap, lp = c["what"], c["lap"], c["lp"]
    n = 3 * c["n"] if what == "loads3" else c["n"]
    g = cplx(c["y"]).reshape(n, n)
    y = (np.where(g.real < 0, g.real - 0.05, g.real + 0.05) + 1j * np.where(g.imag < 0, g.imag - 0.05, g.imag + 0.05)) * c["sc"]
    if not c["asym"]:
        y = np.tril(y) + np.tril(y, -1).T
    z = cplx(c["x"]).reshape(n, n) * c["sc"]
    mode = "sym"
    if what in ("complex", "lasso", "lasso3", "known") and lap:
        mode = "lap"
    pos = [(i, j) for j in range(n) for i in range(j if mode == "sym" else j + 1, n)]
    k = len(pos)
    sg = 1 if mode == "sym" else -1
    par = lambda m: P.rvec(np.array([m[i, i] if i == j else sg * (m[i, j] + m[j, i]) / 2 for i, j in pos]))
    py, pz = par(y), par(z)
    pts = [py, pz, (py + pz) / 2, 0 * py]
    off = [q for q, (i, j) in enumerate(pos) if i != j]
    eye = np.eye(2 * k)
    if np.min(np.abs(py)) < 1e-4 * c["sc"]:
        raise Discard("estimated parameter close to zero")
    y0 = y.copy()
    known = []
    if what in ("complex", "known"):
        diag, each, reg = c["flags"]
        prior = run.build_complex_prior(n, lp, y, lap, diag, each, reg)
        L = [eye[q + h * k] / abs(py[q + h * k]) for h in range(2) for q in off]
        mu, ga = [0.0] * len(L), [1] * len(L)
        part = [np.real, np.imag]
        tot = []
        for h in range(2):
            for i in range(n):
                inc = np.zeros(2 * k)
                for q in off:
                    if i in pos[q]:
                        inc[q + h * k] = 1
                v = -sg * part[h](y[i, i]) if diag else float(inc @ py)
                tot.append((inc, v))
        if each:
            for inc, v in tot:
                if abs(v) < 1e-5 * c["sc"]:
                    raise Discard("reference sum close to zero")
                L.append(lp * inc / v)
                mu.append(lp)
                ga.append(1)
            if reg and not lap:
                for h in range(2):
                    for q, (i, j) in enumerate(pos):
                        if i == j:
                            L.append(lp * eye[q + h * k])
                            mu.append(lp * py[q + h * k])
                            ga.append(1)
        else:
            for h in range(2):
                t = tot[h * n:(h + 1) * n]
                v = sum(a[1] for a in t) / 2
                if abs(v) < 1e-5 * c["sc"]:
                    raise Discard("reference sum close to zero")
                L.append(lp * sum(a[0] for a in t) / 2 / v)
                mu.append(lp)
                ga.append(1)
        alpha = 1e-8
        if what == "known":
            if "none" not in c["type"]:
                yb = z
                same = run.add_known_lines(n, prior, lp, yb, lap, c["type"])
                prior = same
                nodes = [0, 25, 26] if "sub" not in c["type"] else [7, 20, 21]
                lines = {(0, 1), (24, 25), (25, 26), (26, 27), (26, 28)} if "sub" not in c["type"] else \
                    {(6, 7), (7, 8), (19, 20), (20, 21), (21, 22)}
                f, w = (1.1, 0.01 * lp) if "wrong" in c["type"] else (1.0, lp)
                for h in range(2):
                    for q, (i, j) in enumerate(pos):
                        if i != j and (i in nodes or j in nodes):
                            v = pz[q + h * k] if (j, i) in lines else 0.0
                            L.append(w * eye[q + h * k])
                            mu.append(w * f * v)
                            ga.append(1)
            pts = pts[:2]
        compare(prior, np.array(L), np.array(mu), np.array(ga), alpha, pts, "%s prior" % what)
    elif what in ("loads", "loads3"):
        if what == "loads":
            prior = run.build_loads_id_prior(n, y)
            sel, alpha = [q for q in off], 1e-10
        else:
            prior = run3ph.build_loads_id_prior(c["n"], y)
            sel, alpha = [q for q, (i, j) in enumerate(pos) if abs(i - j) > 1], 1e-8
        L = np.array([eye[q + h * k] for h in range(2) for q in sel])
        mu = L @ py
        compare(prior, L, mu, np.ones(len(mu)), alpha, pts, "exact prior")
    else:
        if what == "lasso":
            prior = run.build_lasso_prior(n, y, lap)
        else:
            DT = duplication_matrix(n) @ transformation_matrix(n) if lap else duplication_matrix(n)
            E = elimination_lap_matrix(n) @ elimination_sym_matrix(n) if lap else elimination_sym_matrix(n)
            prior = run3ph.build_lasso_prior(n, y, E, DT)
        try:
            compare(prior, eye / np.abs(py)[:, None], np.zeros(2 * k), np.ones(2 * k), 1e-5, pts, "Lasso prior")
        except Violation:
            # listed finding: weighted with the magnitudes instead of their inverses
            compare(prior, eye * np.abs(py)[:, None], np.zeros(2 * k), np.ones(2 * k), 1e-5, pts, "Lasso prior")
            known.append("lasso-weights")
    exact(y, y0, "initial estimate unchanged")
    return {"labels": [what, mode] + (["flags=%d%d%d" % tuple(c["flags"])] if what == "complex" else []) + ([c["type"]] if what == "known" else []),
            "nontrivial": n >= 3 and c["asym"], "known": known}
