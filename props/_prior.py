"""Random prior through the public add_* API, with an independent reference of what it should contain."""


def strategy(st, P):
    """P: number of real parameters."""
    @st.composite
    def s(draw):
        return {"cls": draw(st.sampled_from(["sparse", "sparse", "dense"])),
                "alpha": draw(st.sampled_from([1e-5, 1e-3, 0.1, 1e-2])),
                "order": draw(st.sampled_from([1, 2, 0, 1, "mixed"])),
                "sp": draw(st.sampled_from([True, True, False])),
                "spv": draw(st.lists(st.sampled_from([1.0, 0.2, 3.0, 10.0]), min_size=P, max_size=P)),
                "ex": draw(st.lists(st.integers(0, P - 1), max_size=3, unique=True)),
                "exv": draw(st.lists(st.sampled_from([0.5, -2.0, 0.0, 4.0]), min_size=3, max_size=3)),
                "exw": draw(st.sampled_from([1.0, 5.0, 0.3])),
                "ct": draw(st.booleans())}
    return s()


def build(d, P):
    import numpy as np
    from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
    p = (SparseSmoothPrior if d["cls"] == "sparse" else SmoothPrior)(smoothness_param=d["alpha"], n=P)
    rows, mu, ga = [], [], []
    order = lambda k: (k % 3 if d["order"] == "mixed" else d["order"])
    # every parameter appears, so that the quadratic is never empty
    if d["sp"] or (not d["ex"] and not d["ct"]):
        v = np.array(d["spv"][:P])
        o = [order(i) for i in range(P)]
        p.add_adaptive_sparsity_prior(np.arange(P), v, o)
        rows.extend(np.eye(P) / v[:, None])
        mu.extend([0.0] * P)
        ga.extend(o)
    if d["ex"]:
        k = len(d["ex"])
        v = np.array(d["exv"][:k])
        o = [order(i + 1) for i in range(k)]
        p.add_exact_prior(np.array(d["ex"]), v, d["exw"], o)
        rows.extend(np.eye(P)[d["ex"]] * d["exw"])
        mu.extend(v * d["exw"])
        ga.extend(o)
    if d["ct"]:
        half = P // 2
        idx = np.vstack((np.arange(half), half + np.arange(half)))
        p.add_contrast_prior(idx, np.array([2.0, -1.0]), np.array([1.0, 0.5]), orders=1)
        r = np.zeros((2, P))
        r[0, :half], r[1, half:] = 0.5, -0.5
        rows.extend(r)
        mu.extend([1.0, 0.5])
        ga.extend([1, 1])
    return p, np.array(rows), np.array(mu, dtype=float), np.array(ga, dtype=float)


def quad(L, mu, ga, alpha, y):
    """A, b, penalty, residual of the smoothed prior at y."""
    import numpy as np
    r = L @ y - mu
    w = np.abs(r) ** (2 - ga) + alpha
    return L.T @ (L / w[:, None]), L.T @ (mu / w), float(np.sum(w)), r


def majorised(ga, alpha, r):
    """sum phi(r) with phi'(r) = r / (|r|^(2-order) + alpha)."""
    import numpy as np
    a = np.abs(r)
    return float(np.sum(np.where(ga == 2, a * a / (2 * (1 + alpha)),
                                 np.where(ga == 1, a - alpha * np.log1p(a / alpha), 0.5 * np.log1p(a * a / alpha)))))


def params(mode, n):
    """reference DT (real matrix n^2 x P/2) and E for the parameter reductions."""
    import numpy as np
    cols = []
    if mode == "none":
        dt = np.eye(n * n)
        return dt, np.eye(n * n)
    for j in range(n):
        for i in range(j if mode == "sym" else j + 1, n):
            m = np.zeros((n, n))
            if mode == "sym":
                m[i, j] = m[j, i] = 1
            else:
                m[i, j] = m[j, i] = -1
                m[i, i] = m[j, j] = 1
            cols.append(m.flatten("F"))
    dt = np.array(cols).T
    e = []
    for j in range(n):
        for i in range(j if mode == "sym" else j + 1, n):
            m = np.zeros((n, n))
            if i == j:
                m[i, i] = 1
            else:
                m[i, j] = m[j, i] = 0.5 if mode == "sym" else -0.5
            e.append(m.flatten("F"))
    return dt, np.array(e)


def nparams(mode, n):
    return {"none": n * n, "sym": n * (n + 1) // 2, "lap": n * (n - 1) // 2}[mode] * 2


def builders(mode):
    from src.models.matrix_operations import duplication_matrix, transformation_matrix, elimination_sym_matrix, \
        elimination_lap_matrix
    if mode == "none":
        return {}
    if mode == "sym":
        return {"dt_matrix_builder": duplication_matrix, "e_matrix_builder": elimination_sym_matrix}
    return {"dt_matrix_builder": lambda n: duplication_matrix(n) @ transformation_matrix(n),
            "e_matrix_builder": lambda n: elimination_lap_matrix(n) @ elimination_sym_matrix(n)}


def rform(m):
    import numpy as np
    return np.block([[m.real, -m.imag], [m.imag, m.real]])


def rvec(v):
    import numpy as np
    return np.concatenate((v.real, v.imag))


def check_stopping(targets, max_it, abs_tol, rel_tol, require, what):
    """The run stops at the first stationary target or at the limit (near ties are not judged)."""
    def verdict(fc, fp):
        d = abs(fc - fp)
        eps = 1e-12 * (abs(fc) + abs(fp))

        def lt(a, b, m):      # True / False / None (too close)
            return None if abs(a - b) <= m else a < b
        small = [lt(d, abs_tol, min(eps, 1e-9 * abs_tol)), lt(d / abs(fp), rel_tol, 1e-9 * rel_tol) if fp else None]
        dec = fp >= fc
        if not dec:
            return False
        if True in small:
            return True
        return None if None in small else False
    for i in range(1, len(targets)):
        s = verdict(targets[i], targets[i - 1])
        if i < len(targets) - 1:
            require(s is not True, "%s: continued after the stationary iterate %d (%r -> %r)" % (what, i, targets[i - 1], targets[i]))
        elif len(targets) < max_it:
            require(s is not False, "%s: stopped at iterate %d of %d, which is not stationary (%r -> %r)" % (what, i, max_it, targets[i - 1], targets[i]))
    require(len(targets) <= max_it, "%s: %d iterations, limit %d" % (what, len(targets), max_it))
    require(len(targets) > 1 or max_it <= 1, "%s: stopped after the first iterate" % what) if max_it > 0 else None
