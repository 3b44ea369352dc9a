"""C08: Fisher information."""
from pbt.common import *

RULE = ("A case is complex voltages (T x n), an admittance matrix, and block 2x2 covariances with diagonal blocks for "
        "voltages and currents (positive definite per sample and node, all different, correlated real/imaginary parts), a "
        "split into two batches, permutations of samples and nodes, noise scalings and voltage units. Non-trivial: n >= 2, T > n, the "
        "samples have different noise.")
EXAMPLES = {"quick": 900, "thorough": 12000}


def strategy(st):
    @st.composite
    def case(draw):
        n = draw(size(st, 1, 4, 6))
        t = 2 * n + draw(size(st, 0, 4, 20))
        var = st.sampled_from([1.0, 1e-2, 0.3, 2.0, 1e-4])
        lv = lambda k: draw(st.lists(var, min_size=k, max_size=k))
        lr = lambda k: draw(st.lists(st.sampled_from([0.0, 0.3, -0.5, 0.9]), min_size=k, max_size=k))
        return {"n": n, "t": t, "x": draw(blob(st, 2 * t * n)), "y": draw(blob(st, 2 * n * n)),
                "lay": draw(layouts(st)), "sym": draw(st.booleans()), "cut": draw(st.integers(n, t - n)),
                "xr": lv(t * n), "xi": lv(t * n), "xc": lr(t * n), "zr": lv(t * n), "zi": lv(t * n), "zc": lr(t * n),
                "rows": draw(st.permutations(list(range(t)))), "perm": draw(st.permutations(list(range(n)))),
                "c": draw(st.sampled_from([2.0, 0.5, 4.0])), "unit": draw(st.lists(st.sampled_from([1.0, 2.0, 0.25, 10.0]), min_size=n, max_size=n)), "more": draw(st.sampled_from(["x", "z"])),
                "lvl": draw(st.sampled_from([1.0, 1e-6, 1e-3]))}
    return case()


def cov_of(r, i, c):
    """block 2x2 matrix with diagonal blocks, from arrays of shape (T, n): variances and correlation."""
    import numpy as np
    from scipy import sparse
    o = (c * np.sqrt(r * i)).flatten("F")
    return sparse.bmat([[sparse.diags(r.flatten("F")), sparse.diags(o)], [sparse.diags(o), sparse.diags(i.flatten("F"))]],
                       format="csr")


def check(c, ctx):
    import numpy as np
    from src.models.error_in_variable import TotalLeastSquares
    n, t = c["n"], c["t"]
    x, y = cplx(c["x"]).reshape(t, n), cplx(c["y"]).reshape(n, n)
    if c["sym"]:
        y = (y + y.T) / 2
    z = x @ y
    par = {k: np.array(c[k]).reshape(t, n) * (c["lvl"] if k[1] != "c" else 1) for k in ("xr", "xi", "xc", "zr", "zi", "zc")}

    def info(rows=None, perm=None, sx=1.0, sz=1.0):
        rows = list(range(t)) if rows is None else rows
        pm = list(range(n)) if perm is None else perm
        sub = {k: v[rows, :][:, pm] for k, v in par.items()}
        xx, zz, yy = x[rows, :][:, pm], z[rows, :][:, pm], y[pm, :][:, pm]
        xx, zz, yy = (layout(a, c.get("lay", 0)) for a in (xx, zz, yy))
        keep = (xx.copy(), zz.copy(), yy.copy())
        f, cv = TotalLeastSquares().fisher_info(xx, zz, cov_of(sx * sub["xr"], sx * sub["xi"], sub["xc"]),
                                                cov_of(sz * sub["zr"], sz * sub["zi"], sub["zc"]), yy)
        for a, b in zip(keep, (xx, zz, yy)):
            exact(b, a, "data unchanged")
        return np.asarray(f), np.asarray(cv)
    cut = c["cut"]
    for part in (x.real, x.imag):
        for rows in (slice(0, cut), slice(cut, t)):
            s = np.linalg.svd(part[rows, :], compute_uv=False)
            if s[-1] < 1e-3 * s[0] or s[0] == 0:
                raise Discard("voltages do not excite every node in each batch")
    f, cov = info()
    k = 2 * n * n
    require(f.shape == (k, k), "information matrix has shape %s" % (f.shape,))
    require(np.all(np.isfinite(f)), "information matrix not finite")
    sc = float(np.max(np.abs(f))) + 1e-300
    close(f, f.T, "information matrix symmetric", rtol=1e-10, scale=sc)
    lam = np.linalg.eigvalsh((f + f.T) / 2)
    require(lam[0] >= -1e-10 * lam[-1] - 1e-300, "information matrix not positive semidefinite: eigenvalues %g .. %g" % (lam[0], lam[-1]))
    labels = ["n=%d" % n, "sym" if c["sym"] else "general"]
    if lam[0] > 1e-9 * lam[-1]:
        kap = lam[-1] / lam[0]
        close(f @ cov, np.eye(k), "covariance is the inverse of the information", rtol=1e-13 * k * kap + 1e-12, scale=1.0 + kap * 1e-3)
        labels.append("invertible")
    else:
        labels.append("singular")
    # scaling of all variances
    close(info(sx=c["c"], sz=c["c"])[0] * c["c"], f, "information scales with 1/variance", rtol=1e-10, scale=sc)
    # sample order and additivity over independent batches
    close(info(rows=c["rows"])[0], f, "sample order does not matter", rtol=1e-9, scale=sc)
    f1, f2 = info(rows=list(range(cut)))[0], info(rows=list(range(cut, t)))[0]
    close(f1 + f2, f, "information adds over batches", rtol=1e-9, scale=sc)
    # units of the voltages: x_i in other units scales the parameters of its row the other way
    u = np.array(c.get("unit", [1.0] * n))
    sub = {k_: v * (u * u if k_[0] == "x" and k_[1] != "c" else 1) for k_, v in par.items()}
    fu = np.asarray(TotalLeastSquares().fisher_info(x * u, z, cov_of(sub["xr"], sub["xi"], sub["xc"]),
                                                    cov_of(sub["zr"], sub["zi"], sub["zc"]), y / u[:, None])[0])
    su = np.tile(u, 2 * n)
    close(fu / np.outer(su, su), f, "information in other voltage units", rtol=1e-9, scale=sc)
    # node relabelling
    p = np.array(c["perm"])
    idx = np.array([p[j] * n + p[i] for j in range(n) for i in range(n)])
    idx = np.concatenate((idx, idx + n * n))
    close(info(perm=list(p))[0], f[idx, :][:, idx], "node relabelling", rtol=1e-9, scale=sc)
    # more noise, less information
    g = info(sx=4.0 if c["more"] == "x" else 1.0, sz=4.0 if c["more"] == "z" else 1.0)[0]
    d = np.linalg.eigvalsh((f - g + (f - g).T) / 2)
    require(d[0] >= -1e-9 * sc * k, "more %s noise increases the information (eigenvalue %g)" % (c["more"], d[0]))
    if np.any(y) and np.any(x):
        require(float(np.trace(g)) < float(np.trace(f)) * (1 - 1e-12) or not np.any(f),
                "information does not depend on the %s noise" % c["more"])
    differ = len(set(c["zr"])) > 1 and len(set(c["xr"])) > 1
    return {"labels": labels, "nontrivial": n >= 2 and t > n and differ and bool(np.any(y))}
