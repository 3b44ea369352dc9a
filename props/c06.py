"""C06: ordinary least squares."""
from pbt.common import *

RULE = ("A case is voltages X (T x n), currents Z (T x m), built as independent data, exactly consistent data, or rank "
        "deficient X = L R, with voltages graded over up to 6 decades, a row mixing, column permutation and scalings. Non-trivial: n >= 2, T > 1, currents not "
        "reproduced by a multiple of the identity.")
EXAMPLES = {"quick": 2400, "thorough": 30000}


def strategy(st):
    @st.composite
    def case(draw):
        n, m = draw(size(st, 1, 6, 20)), draw(size(st, 1, 6, 20))
        t = draw(size(st, 1, 14, 60, 8))
        r = draw(st.integers(1, min(n, t)))
        return {"t": t, "n": n, "m": m, "r": r, "mode": draw(st.sampled_from(["noisy", "consistent", "deficient"])),
                "x": draw(blob(st, 2 * t * n)), "z": draw(blob(st, 2 * t * m)), "y": draw(blob(st, 2 * n * m)),
                "l": draw(blob(st, 2 * t * r)), "rt": draw(blob(st, 2 * r * n)),
                "re": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "lay": draw(layouts(st)), "sx": draw(st.integers(-5, 5)), "sz": draw(st.integers(-5, 5)), "perm": draw(st.permutations(list(range(n)))),
                "rows": draw(st.permutations(list(range(t)))),
                "grade": draw(st.sampled_from([0, 0, 1, 3, 6]))}
    return case()


def check(c, ctx):
    import numpy as np
    from src.models.regression import ComplexRegression
    t, n, m = c["t"], c["n"], c["m"]
    x, z, y = cplx(c["x"]).reshape(t, n), cplx(c["z"]).reshape(t, m), cplx(c["y"]).reshape(n, m)
    if c["mode"] == "deficient":
        x = cplx(c["l"]).reshape(t, c["r"]) @ cplx(c["rt"]).reshape(c["r"], n)
    if c.get("grade"):               # voltages that hardly vary in some directions
        x = x * 10.0 ** (-c["grade"] * np.arange(n) / max(1, n - 1))
    re = c.get("re", 0)              # real voltages, real currents, both
    x = (x.real.copy() if re & 1 else x) * 10.0 ** c["sx"]
    if c["mode"] == "consistent":
        z = x @ y
    else:
        z = z * 10.0 ** c["sz"]
        z = z.real.copy() if re & 2 else z
    if not np.any(x):
        raise Discard("no voltages")
    u, s, vh = np.linalg.svd(x, full_matrices=False)
    rank = int(np.sum(s > 1e-9 * s[0]))
    if np.any((s < 1e-7 * s[0]) & (s > 1e-14 * max(t, n) * s[0])):
        raise Discard("numerically ambiguous rank")
    kappa = s[0] / s[rank - 1]
    x, z = layout(x, c.get("lay", 0)), layout(z, c.get("lay", 0))
    x0, z0 = x.copy(), z.copy()

    def fit(a, b):
        reg = ComplexRegression()
        reg.fit(a, b)
        return np.asarray(reg.fitted_admittance_matrix)
    got = fit(x, z)
    want = (vh[:rank].conj().T / s[:rank]) @ (u[:, :rank].conj().T @ z)      # minimum norm least squares
    eps = 1e-12 * kappa
    sc = float(np.max(np.abs(z))) / s[rank - 1] * math.sqrt(t) + 1e-300
    close(got, want, "least-squares solution (%s)" % c["mode"], rtol=eps, scale=sc)
    res = x.conj().T @ (z - x @ got)
    close(res, np.zeros_like(res), "normal equations", rtol=eps * max(1.0, 1e-4 * kappa), scale=s[0] * np.linalg.norm(z) + 1e-300)
    if c["mode"] == "consistent" and rank == n:
        close(got, y, "exact recovery", rtol=eps, scale=kappa * float(np.max(np.abs(y)) * n) + 1e-300)
    # equivariance
    p = np.array(c["perm"])
    close(fit(x[:, p], z), got[p, :], "node permutation", rtol=2 * eps, scale=sc)
    close(fit(x[c["rows"], :], z[c["rows"], :]), got, "sample permutation", rtol=2 * eps, scale=sc)
    close(fit(2 * x, 8j * z), 4j * got, "scaling", rtol=2 * eps, scale=4 * sc)
    q = np.linalg.qr(cplx(c["x"]).reshape(t, n) @ np.ones((n, t)) + np.diag(np.arange(1, t + 1) + 1j))[0]
    close(fit(q @ x, q @ z), got, "unitary mixing of samples", rtol=4 * eps, scale=sc)
    for j in range(m):
        close(fit(x, z[:, j:j + 1])[:, 0], got[:, j], "columns are independent", rtol=2 * eps, scale=sc)
    exact(x, x0, "voltages unchanged")
    exact(z, z0, "currents unchanged")
    labels = [c["mode"], "under" if t < n else "over", "rank %s" % ("full" if rank == min(t, n) else "deficient")]
    nt = n >= 2 and t > 1 and bool(np.any(z))
    return {"labels": labels, "nontrivial": nt}
