"""C04: error metrics."""
from pbt.common import *

RULE = ("A case is a truth (vector or matrix, complex or real, some entries exactly zero), an estimate, a scaling and a "
        "permutation. Non-trivial: truth has zero and non-zero entries, the estimate differs from the truth on both kinds.")
EXAMPLES = {"quick": 2400, "thorough": 40000}


def strategy(st):
    @st.composite
    def case(draw):
        m, n = draw(size(st, 1, 7, 30)), draw(size(st, 0, 6, 30))
        k = m * max(n, 1)
        return {"m": m, "n": n, "flav": draw(flavour(st)), "cplx": draw(st.sampled_from([True, True, False])),
                "mask": draw(st.lists(st.booleans(), min_size=min(k, 40), max_size=min(k, 40))),
                "a": draw(blob(st, 2 * k)), "b": draw(blob(st, 2 * k)),
                "est": draw(st.sampled_from(["independent", "near", "tiny", "equal"])),
                "lay": draw(layouts(st)), "scale": draw(st.integers(-6, 6)), "rot": draw(st.integers(0, 7))}
    return case()


def check(c, ctx):
    import numpy as np
    from src.models import error_metrics as em
    m, n = c["m"], c["n"]
    k = m * max(n, 1)
    y, e = cplx(c["a"], c["flav"]), cplx(c["b"], c["flav"])
    y = np.where(np.resize(np.array(c["mask"]), m * max(n, 1)).reshape(np.shape(y)), y, 0)
    yh = {"independent": e, "near": y + 1e-3 * e, "tiny": y + 1e-9 * e, "equal": y.copy()}[c["est"]]
    if not c["cplx"]:
        y, yh = y.real.copy(), yh.real.copy()
    sc = 10.0 ** c["scale"]
    y, yh = y * sc, yh * sc
    if n:
        y, yh = y.reshape(m, n), yh.reshape(m, n)
    y, yh = layout(y, c.get("lay", 0)), layout(yh, c.get("lay", 0))
    y0, yh0 = y.copy(), yh.copy()
    labels = [c["est"], "vector" if n == 0 else "matrix", "complex" if c["cplx"] else "real"]
    diffs = [abs(complex(p) - complex(q)) for p, q in zip(y.flatten(), yh.flatten())]
    mags = [abs(complex(p)) for p in y.flatten()]
    nrm = lambda l: math.sqrt(math.fsum(t * t for t in l))
    fro, mx = nrm(diffs), max(diffs)
    nz = [(d, g) for d, g in zip(diffs, mags) if g != 0]
    tol = dict(rtol=1e-10, atol=1e-300)
    close(em.fro_error(y, yh), fro, "fro_error", **tol)
    close(em.max_error(y, yh), mx, "max_error", **tol)
    allm = em.error_metrics(y, yh)
    close(allm.fro_error, fro, "error_metrics.fro_error", **tol)
    close(allm.max_error, mx, "error_metrics.max_error", **tol)
    if nz:
        rr = fro / nrm(mags) * 100
        mp_ = nrm([d for d, _ in nz]) / nrm([g for _, g in nz]) * 100
        close(em.rrms_error(y, yh), rr, "rrms_error", **tol)
        close(em.map_error(y, yh), mp_, "map_error", **tol)
        close(allm.rrms_error, rr, "error_metrics.rrms_error", **tol)
        close(allm.map_error, mp_, "error_metrics.map_error", **tol)
        # metamorphic: permutation, complex rotation of both, conjugation, sign of the error
        f = lambda t: np.roll(t.flatten(), c["rot"]).reshape(t.shape)
        for name, fn in (("fro", em.fro_error), ("max", em.max_error), ("rrms", em.rrms_error), ("map", em.map_error)):
            ref = fn(y, yh)
            close(fn(f(y), f(yh)), ref, name + " permuted", rtol=1e-9, atol=1e-300)
            close(fn(-y, -yh), ref, name + " negated", rtol=1e-9, atol=1e-300)
            close(fn(y, y.copy()), 0.0, name + " of a perfect estimate", rtol=0, atol=0)
            close(fn(4.0 * y, 4.0 * yh), ref * (4.0 if name in ("fro", "max") else 1.0), name + " scaled",
                  rtol=1e-8, atol=1e-12 * (1.0 if name in ("rrms", "map") else sc))
    exact(y, y0, "truth unchanged")
    exact(yh, yh0, "estimate unchanged")
    dz = any(d > 0 for d, g in zip(diffs, mags) if g == 0)
    dn = any(d > 0 for d, g in nz)
    return {"labels": labels, "nontrivial": bool(nz) and len(nz) < k and dz and dn}
