"""C02: duplication, transformation and elimination matrices."""
from pbt.common import *

RULE = ("Enumerated: every size n from 1 to 40 and 56, the size of the largest shipped network, with a fixed index-coded symmetric matrix. "
        "Generated: a size n in 1..10 with a random complex non-symmetric matrix and a random parameter vector. "
        "Non-trivial: n >= 3 and the matrix is not symmetric.")
EXAMPLES = {"quick": 1200, "thorough": 12000}


def enumerate_cases(tier):
    return [{"n": n, "coded": True} for n in list(range(1, 41)) + [56]]


def strategy(st):
    @st.composite
    def case(draw):
        n = draw(size(st, 1, 10, 40))
        return {"n": n, "coded": False, "flav": draw(flavour(st)), "a": draw(blob(st, 2 * n * n)),
                "q": draw(blob(st, n * (n + 1)))}
    return case()


def vech(m):
    import numpy as np
    n = m.shape[0]
    return np.array([m[i, j] for j in range(n) for i in range(j, n)])


def ve(m):
    import numpy as np
    n = m.shape[0]
    return np.array([m[i, j] for j in range(n) for i in range(j + 1, n)], dtype=m.dtype)


def check(c, ctx):
    import numpy as np
    from src.models import matrix_operations as mo
    n = c["n"]
    if c["coded"]:
        a = np.array([[(1 + i * n + j) * (1 if i >= j else -0.5) + 1j * (i - 2.0 * j) for j in range(n)] for i in range(n)])
        q = np.arange(1, n * (n + 1) // 2 + 1) * (1 + 0.25j)
    else:
        a = cplx(c["a"], c["flav"]).reshape(n, n)
        q = cplx(c["q"], c["flav"])
    s = (a + a.T) / 2
    lap = s - np.diag(np.diag(s))
    lap = np.diag(lap.sum(axis=1)) - lap            # any symmetric Laplacian
    tol = dict(rtol=1e-12, scale=float(np.max(np.abs(a))) * n + 1e-300)

    d = mo.duplication_matrix(n)
    t = mo.transformation_matrix(n)
    e = mo.elimination_sym_matrix(n)
    el = mo.elimination_lap_matrix(n)
    hs, hl = n * (n + 1) // 2, n * (n - 1) // 2
    for name, x, sh in (("duplication", d, (n * n, hs)), ("transformation", t, (hs, hl)),
                        ("elimination_sym", e, (hs, n * n)), ("elimination_lap", el, (hl, hs))):
        require(tuple(x.shape) == sh, "%s_matrix(%d) has shape %s, expected %s" % (name, n, x.shape, sh))
    vec = lambda x: x.flatten("F")
    unvec = lambda x: x.reshape((n, n), order="F")

    close(d @ vech(s), vec(s), "D vech(S) = vec(S)", **tol)
    close(e @ vec(s), vech(s), "E vec(S) = vech(S)", **tol)
    exact(e @ d, np.eye(hs), "E D = I")
    close(unvec(d @ (e @ vec(a))), s, "D E averages mirrored entries", **tol)
    back = unvec(d @ q)
    exact(back, back.T, "D q is symmetric")
    exact(e @ vec(back), q, "E D q = q")

    # Laplacian: parameters are the negated strict lower triangle (edge weights)
    w = -ve(lap)
    close(el @ vech(lap), w, "E_lap vech(L) = edge weights", **tol)
    close(t @ w, vech(lap), "T ve(L) = vech(L)", **tol)
    close(unvec(d @ (t @ (el @ (e @ vec(lap))))), lap, "D T E_lap E_sym vec(L) = vec(L)", **tol)
    exact(el @ t, np.eye(hl), "E_lap T = I")
    w2 = q[:hl]
    l2 = unvec(d @ (t @ w2))
    exact(l2, l2.T, "D T w is symmetric")
    close(l2.sum(axis=1), np.zeros(n), "D T w has zero row sums", rtol=1e-12,
          scale=float(np.max(np.abs(w2))) * n + 1e-300 if hl else 1.0)
    close(-ve(l2), w2, "off-diagonal entries of D T w are -w", **tol) if hl else None
    # every builder is a pure function of n, and its result belongs to the caller
    for name, m in (("duplication", d), ("transformation", t), ("elimination_sym", e), ("elimination_lap", el)):
        was = m.copy()
        again = getattr(mo, name + "_matrix")(n)
        exact(again, was, name + " again")
        again *= 2
        if n % 2:
            m += 1
        exact(getattr(mo, name + "_matrix")(n), was, name + " after an earlier result was changed")
    nt = n >= 3 and not np.array_equal(a, a.T)
    return {"labels": ["n=%d" % n, "enumerated" if c["coded"] else c["flav"]], "nontrivial": bool(nt)}
