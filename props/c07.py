"""C07: total least squares."""
from pbt.common import *

RULE = ("A case is X (T x n), a generating matrix Y (n x m), a perturbation of both data matrices of relative size 0 to 0.3, "
        "a node with up to 5e4 times larger admittances, 2-D or 1-D output, permutations and a unitary mixing. Discarded: no spectral gap between the n-th and next singular "
        "value, or the output block of the null space is near singular. Non-trivial: n >= 2 and a non-zero perturbation.")
EXAMPLES = {"quick": 2400, "thorough": 30000}


def strategy(st):
    @st.composite
    def case(draw):
        n = draw(size(st, 1, 6, 14))
        m = draw(size(st, 1, 6, 14))
        t = n + draw(size(st, 0, m + 8, m + 40))
        return {"t": t, "n": n, "m": m, "noise": draw(st.sampled_from([0, 1e-6, 1e-3, 0.05, 0.3])),
                "x": draw(blob(st, 2 * t * n)), "e": draw(blob(st, 2 * t * (n + m))), "y": draw(blob(st, 2 * n * m)),
                "real": draw(st.sampled_from([False, False, True, "x", "z"])), "oned": draw(st.booleans()),
                "lay": draw(layouts(st)), "s": draw(st.integers(-4, 4)), "perm": draw(st.permutations(list(range(n)))),
                "permz": draw(st.permutations(list(range(m)))), "rows": draw(st.permutations(list(range(t)))),
                "grade": draw(st.sampled_from([0, 0, 0, 2, 4.7]))}
    return case()


def check(c, ctx):
    import numpy as np
    from src.models.error_in_variable import TotalLeastSquares
    t, n, m = c["t"], c["n"], c["m"]
    x, y = cplx(c["x"]).reshape(t, n), cplx(c["y"]).reshape(n, m) / 4
    y[:, 0] *= 10.0 ** c.get("grade", 0)      # one much stronger node
    e = cplx(c["e"]).reshape(t, n + m) * c["noise"]
    if c["real"] is True:
        x, y, e = x.real.copy(), y.real.copy(), e.real.copy()
    sc = 10.0 ** c["s"]
    z = x @ y
    if c["real"] == "x":
        x = x.real.copy()
        z = x @ y
    x, z = (x + e[:, :n]) * sc, (z + e[:, n:]) * sc
    if c["real"] == "x":            # magnitudes only: real voltages, complex currents
        x = x.real.copy()
    elif c["real"] == "z":
        z = z.real.copy()
    w = np.hstack((x, z))
    if not np.any(w):
        raise Discard("no data")
    s = np.concatenate((np.linalg.svd(w, compute_uv=False), np.zeros(max(0, n + 1 - t))))
    if s[n] > 0.95 * s[n - 1] or s[n - 1] < 1e-6 * s[0]:
        raise Discard("no spectral gap")
    gap = (s[n - 1] - s[n]) / s[0]

    def fit(a, b):
        tls = TotalLeastSquares()
        tls.fit(a, b)
        return np.asarray(tls.fitted_admittance_matrix)
    vh = np.linalg.svd(w)[2]
    v = vh.conj().T
    if np.linalg.svd(v[n:, n:], compute_uv=False)[-1] < 1e-3 * 10.0 ** -c.get("grade", 0):
        raise Discard("non-generic problem")
    x, z = layout(x, c.get("lay", 0)), layout(z, c.get("lay", 0))
    x0, z0 = x.copy(), z.copy()
    got = fit(x, z)
    if m > 1:
        same_shape(got, y, "estimate")
    require(got.size == n * m, "estimate has %d entries" % got.size)
    b = got.reshape(n, m)
    # smallest correction that makes the data consistent with b
    nul = np.vstack((b, -np.eye(m)))
    corr = w @ nul @ np.linalg.inv(nul.conj().T @ nul) @ nul.conj().T
    best = math.sqrt(math.fsum(float(q) ** 2 for q in s[n:]))
    require(np.all(np.isfinite(corr)), "estimate not finite")
    cn = float(np.linalg.norm(corr))
    require(abs(cn - best) <= 1e-7 * best + 1e-10 * s[0] / gap, "data correction %r, smallest possible is %r" % (cn, best))
    fixed = w - corr
    bs = max(1.0, float(np.max(np.abs(b))))
    close(fixed[:, :n] @ b, fixed[:, n:], "corrected data satisfy z = x y", rtol=1e-10, scale=s[0] * bs ** 2 * 10)
    tol = dict(rtol=1e-11 / gap, scale=1e3 * bs ** 2)
    if c["noise"] == 0 and c["real"] != "z":
        close(b, y, "exact recovery", **tol)
    p, pz = np.array(c["perm"]), np.array(c["permz"])
    close(fit(x[c["rows"], :], z[c["rows"], :]).reshape(n, m), b, "sample permutation", **tol)
    close(fit(x[:, p], z[:, pz]).reshape(n, m), b[p, :][:, pz], "node permutation", **tol)
    close(fit(4 * x, 4 * z).reshape(n, m), b, "common scaling", **tol)
    q = np.linalg.qr(np.diag(np.arange(1.0, t + 1)) + np.outer(x[:, 0], x[:, 0].conj()) / (sc ** 2) + np.tri(t))[0]
    close(fit(q @ x, q @ z).reshape(n, m), b, "unitary mixing of samples", **tol)
    labels = ["noise %g" % c["noise"], {False: "complex", True: "real"}.get(c["real"], "real " + str(c["real"])), "fewer samples than unknowns plus outputs" if t < n + m else "long"]
    if c["oned"] and m == 1:
        g1 = fit(x, z[:, 0])
        require(g1.shape == (n,), "1-D output gives shape %s" % (g1.shape,))
        close(g1, b[:, 0], "1-D output", **tol)
        labels.append("1-D")
    exact(x, x0, "x unchanged")
    exact(z, z0, "z unchanged")
    return {"labels": labels, "nontrivial": n >= 2 and c["noise"] > 0}
