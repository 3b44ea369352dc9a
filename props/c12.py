"""C12: symmetrical components."""
from pbt.common import *

RULE = ("A case is a number of nodes (1..7), samples (1..8), complex admittance blocks (full, block diagonal or diagonal "
        "sequence blocks) and measurements, in units from 1e-12 to 1e7. Reference: sum over the three components per node, written without matrices. "
        "Non-trivial: at least 2 nodes, data not all zero.")
EXAMPLES = {"quick": 4000, "thorough": 60000}


def strategy(st):
    @st.composite
    def case(draw):
        n, t = draw(size(st, 1, 7, 25)), draw(size(st, 1, 8, 40))
        return {"lay": draw(layouts(st)), "n": n, "t": t, "y": draw(blob(st, 18 * n * n)), "v": draw(blob(st, 6 * n * t)), "w": draw(blob(st, 6 * n * t)),
                "kind": draw(st.sampled_from(["full", "diag", "line"])), "fl": draw(flavour(st)),
                "sc": draw(st.sampled_from([0, 0, 0, -12, -7, 7])), "mat": draw(st.sampled_from(["array", "array", "matrix", "real"]))}
    return case()


def check(c, ctx):
    import cmath
    import numpy as np
    from src.simulation.lines import admittance_sequence_to_phase as ys2p, admittance_phase_to_sequence as yp2s, \
        measurement_sequence_to_phase as ms2p, measurement_phase_to_sequence as mp2s
    n, t = c["n"], c["t"]
    a = cmath.exp(2j * cmath.pi / 3)
    v = cplx(c["v"], c["fl"]).reshape(t, 3 * n)
    w = cplx(c["w"], c["fl"]).reshape(t, 3 * n)
    y = cplx(c["y"], c["fl"]).reshape(3 * n, 3 * n)
    if c["kind"] != "full":
        y = y * np.kron(np.ones((n, n)), np.eye(3))
    if c["kind"] == "line":
        y[2::3, 2::3] = y[1::3, 1::3]
    if c["mat"] == "real":
        v, w, y = v.real.copy(), w.real.copy(), y.real.copy()
    v, w, y = (q * 10.0 ** c.get("sc", 0) for q in (v, w, y))
    v, w, y = (layout(q, c.get("lay", 0)) for q in (v, w, y))
    ym = np.asmatrix(y) if c["mat"] == "matrix" else y
    s = float(np.max(np.abs(v))) + 1e-300
    sy = float(np.max(np.abs(y))) + 1e-300
    keep = v.copy(), y.copy()
    # definitions, per node
    pos = np.asarray(ms2p(v))
    seq = np.asarray(mp2s(v))
    for k in range(n):
        x0, x1, x2 = v[:, 3 * k], v[:, 3 * k + 1], v[:, 3 * k + 2]
        close(pos[:, 3 * k:3 * k + 3], np.stack((x0 + x1 + x2, x0 + a * a * x1 + a * x2, x0 + a * x1 + a * a * x2), 1),
              "phases of node %d" % k, rtol=1e-12, scale=s)
        close(seq[:, 3 * k:3 * k + 3], np.stack((x0 + x1 + x2, x0 + a * x1 + a * a * x2, x0 + a * a * x1 + a * x2), 1) / 3,
              "sequence components of node %d" % k, rtol=1e-12, scale=s)
    close(np.asarray(ms2p(mp2s(v))), v, "phase -> sequence -> phase", rtol=1e-12, scale=s)
    close(np.asarray(mp2s(ms2p(v))), v, "sequence -> phase -> sequence", rtol=1e-12, scale=s)
    close(np.asarray(ys2p(yp2s(ym))), y, "admittance phase -> sequence -> phase", rtol=1e-12, scale=sy)
    close(np.asarray(yp2s(ys2p(ym))), y, "admittance sequence -> phase -> sequence", rtol=1e-12, scale=sy)
    # the admittance images block by block, entry by entry
    A = np.array([[a ** (-i * j) for j in range(3)] for i in range(3)])
    Ai = np.array([[a ** (i * j) for j in range(3)] for i in range(3)]) / 3
    yp, yq = np.asarray(ys2p(ym)), np.asarray(yp2s(ym))
    same_shape(yp, y, "phase admittance")
    same_shape(yq, y, "sequence admittance")
    for i in range(n):
        for j in range(n):
            b = (slice(3 * i, 3 * i + 3), slice(3 * j, 3 * j + 3))
            close(yp[b], A @ y[b] @ Ai, "phase admittance of block %d,%d" % (i, j), rtol=1e-12, scale=sy)
            close(yq[b], Ai @ y[b] @ A, "sequence admittance of block %d,%d" % (i, j), rtol=1e-12, scale=sy)
    # a balanced system only has a positive component
    base = v[:, ::3]
    bal = np.stack((base, a * a * base, a * base), axis=2).reshape(t, 3 * n)
    want = np.stack((0 * base, base, 0 * base), axis=2).reshape(t, 3 * n)
    close(np.asarray(mp2s(bal)), want, "balanced positive sequence system", rtol=1e-12, scale=s)
    # Ohm's law in both representations
    if c["kind"] == "line":
        close(np.asarray(ms2p(v @ y)), np.asarray(ms2p(v)) @ yp, "Ohm's law carried to the phases", rtol=1e-12, scale=s * sy * 9 * n)
        close(np.asarray(mp2s(v @ yp)), np.asarray(mp2s(v)) @ y, "Ohm's law carried to the sequences", rtol=1e-12, scale=s * sy * 9 * n)
    close(np.asarray(ms2p(v + 2 * w)), pos + 2 * np.asarray(ms2p(w)), "linear", rtol=1e-12, scale=s + float(np.max(np.abs(w))))
    exact(v, keep[0], "measurement unchanged")
    exact(np.asarray(ym), keep[1], "admittance unchanged")
    return {"labels": ["n=%d" % n, c["kind"], c["mat"]], "nontrivial": n >= 2 and bool(np.any(v)) and bool(np.any(y))}
