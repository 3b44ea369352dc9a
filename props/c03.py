"""C03: undelete is the inverse of np.delete."""
from pbt.common import *

RULE = ("A case is a matrix (1..8 x 1..8, real or complex), an axis and an index set (any order, as list or array, "
        "possibly empty, leading, trailing or everything). Non-trivial: at least two indices, not in increasing order or "
        "not contiguous, and some kept entries.")
EXAMPLES = {"quick": 3000, "thorough": 40000}


def strategy(st):
    @st.composite
    def case(draw):
        m, n, axis = draw(size(st, 1, 8, 60)), draw(size(st, 1, 8, 60)), draw(st.integers(0, 1))
        ln = (m, n)[axis]
        idx = draw(st.lists(st.integers(0, ln - 1), unique=True, max_size=ln,
                            min_size=min(ln, draw(size(st, 0, 4, 20)))))
        return {"m": m, "n": n, "axis": axis, "idx": idx, "flav": draw(flavour(st)), "cplx": draw(st.booleans()),
                "kind": draw(st.sampled_from(["list", "array", "float"])), "x": draw(blob(st, 2 * m * n))}
    return case()


def check(c, ctx):
    import numpy as np
    from src.models.matrix_operations import undelete
    m, n, axis, idx = c["m"], c["n"], c["axis"], c["idx"]
    x = cplx(c["x"], c["flav"]).reshape(m, n)
    x = x if c["cplx"] else x.real.copy()
    arg = lambda l: list(l) if c["kind"] == "list" else np.array(l, dtype=float if c["kind"] == "float" else int)
    red = np.delete(x, np.array(idx, dtype=int), axis=axis)
    red0 = red.copy()
    want = x.copy()
    for i in idx:
        if axis == 0:
            want[i, :] = 0
        else:
            want[:, i] = 0
    a = arg(idx)
    before = list(idx)
    got = undelete(red, a, axis)
    exact(got, want, "undelete(delete(x), idx)")
    exact(red, red0, "input unchanged")
    require([int(i) for i in a] == before, "index argument was modified")
    exact(undelete(red, arg(sorted(idx)), axis), want, "sorted index order")
    exact(undelete(red, arg(sorted(idx)[::-1]), axis), want, "reversed index order")
    if axis == 0:
        exact(undelete(red, arg(idx)), want, "default axis is rows")
    exact(np.delete(got, np.array(idx, dtype=int), axis=axis), red, "delete(undelete(x)) = x")
    exact(undelete(np.ascontiguousarray(red.T), arg(idx), 1 - axis), want.T, "transposition swaps the axes")
    labels = ["axis%d" % axis, c["kind"], "k=%d" % len(idx)]
    nt = len(idx) >= 2 and len(idx) < (m, n)[axis] and (idx != sorted(idx) or max(idx) - min(idx) != len(idx) - 1)
    return {"labels": labels, "nontrivial": nt}
