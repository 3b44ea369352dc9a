"""C05: polar-to-Cartesian noise covariance matrices against moments by Gauss-Hermite quadrature."""
from pbt.common import *

RULE = ("A case is a T x n complex measurement (magnitudes over 12 decades incl. zero, exact quadrant angles), magnitude "
        "and phase deviations (1e-5..1), the deviation given as a scalar, numpy scalar or per-node vector, one of the three "
        "methods and an inversion flag. Non-trivial: T >= 2, n >= 2 and, for vectors, unequal deviations.")
EXAMPLES = {"quick": 2000, "thorough": 30000}
METHODS = ["exact", "naive", "average"]


def strategy(st):
    @st.composite
    def case(draw):
        t, n = draw(size(st, 1, 5, 40)), draw(size(st, 1, 4, 9))
        return {"lay": draw(layouts(st)), "t": t, "n": n, "flav": draw(flavour(st)), "x": draw(blob(st, 2 * t * n)), "re": draw(st.sampled_from([0, 0, 0, 1])),
                "method": draw(st.sampled_from(METHODS)),
                "kind": draw(st.sampled_from(["vector", "float", "npfloat"])),
                "sds": draw(st.lists(st.sampled_from([0.02, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, 3.0]), min_size=n, max_size=n)),
                "sdp": draw(st.sampled_from([0.01, 1.7e-4, 1e-3, 0.05, 0.2, 0.5, 0.9]))}
    return case()


_NODES = []


def nodes():
    import numpy as np
    if not _NODES:
        xs, ws = np.polynomial.hermite_e.hermegauss(48)
        _NODES.extend([xs, ws / ws.sum()])
    return _NODES


def moments(m, mv, fv):
    """Central variances (radial a, tangential b) of (m + dm) exp(j phi) by quadrature, in the frame of the measurement."""
    import numpy as np
    xs, ws = nodes()
    phi = xs * math.sqrt(fv)
    dev = -2 * np.sin(phi / 2) ** 2 - math.expm1(-fv / 2)      # cos(phi) - E cos(phi), without cancellation
    a = m * m * float(np.sum(ws * dev ** 2)) + mv * float(np.sum(ws * np.cos(phi) ** 2))
    b = (m * m + mv) * float(np.sum(ws * np.sin(phi) ** 2))
    return a, b


def check(c, ctx):
    import numpy as np
    from scipy import sparse
    from src.models import noise_transformation as nt
    t, n, method = c["t"], c["n"], c["method"]
    x = cplx(c["x"], c["flav"]).reshape(t, n)
    if c.get("re"):                  # magnitudes only
        x = x.real.copy()
    sdp = float(c["sdp"])
    if c["kind"] == "vector":
        sds = np.array(c["sds"], dtype=float)
        arg = sds.copy()
    else:
        if c["kind"] == "npfloat" and n == 1:
            raise Discard("ambiguous numpy scalar for one node")
        sds = np.full(n, c["sds"][0])
        arg = float(sds[0]) if c["kind"] == "float" else np.float64(sds[0])
    fn = {"exact": nt.exact_noise_covariance, "naive": nt.naive_noise_covariance,
          "average": nt.average_true_noise_covariance}[method]
    fv = sdp ** 2
    xs, ws = nodes()
    k = t * n
    a, b, rr, ii, ri = (np.zeros(k) for _ in range(5))
    for j in range(n):
        for i in range(t):
            q = j * t + i
            m, f, mv = abs(x[i, j]), float(np.angle(x[i, j])), float(sds[j]) ** 2
            if method == "naive":
                a[q], b[q] = mv, m * m * fv
                cc, ss, sc = math.cos(f) ** 2, math.sin(f) ** 2, math.sin(f) * math.cos(f)
            elif method == "exact":
                a[q], b[q] = moments(m, mv, fv)
                cc, ss, sc = math.cos(f) ** 2, math.sin(f) ** 2, math.sin(f) * math.cos(f)
            else:
                # expectation over the true value m - dm, f - phi of the exact covariance
                a[q], b[q] = moments(math.sqrt(m * m + mv), mv, fv)
                g = f + xs * sdp
                cc, ss, sc = float(np.sum(ws * np.cos(g) ** 2)), float(np.sum(ws * np.sin(g) ** 2)), \
                    float(np.sum(ws * np.sin(g) * np.cos(g)))
            rr[q], ii[q], ri[q] = cc * a[q] + ss * b[q], ss * a[q] + cc * b[q], sc * (a[q] - b[q])
    x = layout(x, c.get("lay", 0))
    mags = np.abs(x).flatten("F") ** 2 + np.repeat(sds, t) ** 2
    x0, arg0 = x.copy(), np.array(arg, copy=True)
    got = fn(x, arg, sdp)
    require(sparse.issparse(got), "covariance is not sparse")
    require(got.shape == (2 * k, 2 * k), "shape %s" % (got.shape,))
    g = got.toarray()
    off = g.copy()
    for q in range(k):
        for (r, s) in ((q, q), (q, q + k), (q + k, q), (q + k, q + k)):
            off[r, s] = 0
    require(not np.any(off), "%s: covariance couples different samples or nodes" % method)
    idx = np.arange(k)
    tol = 1e-9 * np.maximum(rr, ii) + 64 * 2.3e-16 * mags
    for name, val, ref in (("real", g[idx, idx], rr), ("imag", g[idx + k, idx + k], ii), ("cov", g[idx, idx + k], ri),
                           ("cov'", g[idx + k, idx], ri)):
        require(np.all(np.isfinite(val)), "%s %s part not finite" % (method, name))
        bad = np.abs(val - ref) > tol
        if np.any(bad):
            q = int(np.argmax(np.abs(val - ref) / (tol + 1e-300)))
            raise Violation("%s %s variance of sample %d node %d: %r, expected %r" % (method, name, q % t, q // t, val[q], ref[q]))
    exact(x, x0, "measurement unchanged")
    exact(np.array(arg), arg0, "deviation unchanged")
    labels = [method, c["kind"]]

    # diagonal helpers of the average-true method
    if method == "average":
        for j in range(n):
            sl = slice(j * t, (j + 1) * t)
            for name, h, ref in (("real", nt.average_true_var_real, rr), ("imag", nt.average_true_var_imag, ii),
                                 ("cov", nt.average_true_cov, ri)):
                val = h(x[:, j], float(sds[j]), sdp)
                require(np.all(np.abs(val - ref[sl]) <= tol[sl]), "average_true helper %s: %r expected %r" % (name, val, ref[sl]))

    # inverse
    inv = fn(x, arg, sdp, inverted=True)
    require(inv.shape == (2 * k, 2 * k), "inverse shape %s" % (inv.shape,))
    v = inv.toarray()
    off = v.copy()
    ntested = 0
    for q in range(k):
        for (r, s) in ((q, q), (q, q + k), (q + k, q), (q + k, q + k)):
            off[r, s] = 0
        blk = np.array([[rr[q], ri[q]], [ri[q], ii[q]]])
        lam = np.linalg.eigvalsh(blk)
        if not lam[0] > 0 or rr[q] == 0 or ii[q] == 0:
            continue
        rel = 1e-9 + 400 * 2.3e-16 * (lam[1] / lam[0]) ** 1 * (1 + mags[q] / lam[0])
        if rel > 1e-2:
            continue
        gi = np.array([[v[q, q], v[q, q + k]], [v[q + k, q], v[q + k, q + k]]])
        want = np.array([[ii[q], -ri[q]], [-ri[q], rr[q]]]) / (lam[0] * lam[1])
        close(gi, want, "%s inverse block of sample %d node %d" % (method, q % t, q // t), rtol=rel)
        ntested += 1
    require(not np.any(off[np.isfinite(off)]), "%s: inverse couples different samples or nodes" % method)
    labels.append("inverse tested" if ntested == k else "inverse partly tested")
    nontrivial = t >= 2 and n >= 2 and (c["kind"] != "vector" or len(set(sds.tolist())) > 1) and ntested > 0
    return {"labels": labels, "nontrivial": nontrivial}
