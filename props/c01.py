"""C01: vectorisation and complex/real representations."""
from pbt.common import *

RULE = ("A case is a pair of complex (or real) matrices A (m x k), B (k x p), a vector and a storage format; shapes 1..7, "
        "values dense/integer/sparse/wide-range. Non-trivial: A has at least two rows or columns, a non-zero real and "
        "imaginary part and is not symmetric.")
EXAMPLES = {"quick": 2400, "thorough": 40000}
FORMATS = ["dense", "csr", "csc", "coo"]


def strategy(st):
    @st.composite
    def case(draw):
        m, k, p = draw(size(st, 1, 7, 20)), draw(size(st, 1, 7, 20)), draw(size(st, 1, 7, 20))
        return {"m": m, "k": k, "p": p, "flav": draw(flavour(st)), "fmt": draw(st.sampled_from(FORMATS)),
                "real": draw(st.sampled_from([False, False, False, True])),
                "order": draw(st.sampled_from(["C", "F", "T"])),
                "a": draw(blob(st, 2 * m * k)), "b": draw(blob(st, 2 * k * p)), "v": draw(blob(st, 2 * k))}
    return case()


def check(c, ctx):
    import numpy as np
    import scipy.sparse as sp
    from src.models import matrix_operations as mo
    m, k, p = c["m"], c["k"], c["p"]
    a, b, v = cplx(c["a"], c["flav"]).reshape(m, k), cplx(c["b"], c["flav"]).reshape(k, p), cplx(c["v"], c["flav"])
    if c["real"]:
        a = np.real(a).copy()
    if c["order"] == "F":
        a = np.asfortranarray(a)
    elif c["order"] == "T":
        a = np.ascontiguousarray(a.T).T
    a0, b0, v0 = a.copy(), b.copy(), v.copy()
    labels = [c["fmt"], c["flav"], "real" if c["real"] else "complex", "order " + c["order"]]

    # vectorisation: column stacking, exactly inverted
    va = mo.vectorize_matrix(a)
    exact(va, np.array([a[i, j] for j in range(k) for i in range(m)]), "vec(A) is column-wise")
    exact(mo.unvectorize_matrix(va, (m, k)), a, "unvec(vec(A)) = A")
    exact(mo.vectorize_matrix(mo.unvectorize_matrix(v, (k, 1))), v, "vec(unvec(v)) = v")
    exact(mo.vectorize_matrix(mo.unvectorize_matrix(va, (k, m))), va, "vec(unvec(v)) = v, other shape")
    exact(mo.vectorize_matrix(a.tolist()), va, "vec of nested lists")
    ab = a @ b
    mag = float(np.max(np.abs(a)) * np.max(np.abs(b)) * k) + 1e-300
    close(np.kron(np.eye(p), a) @ mo.vectorize_matrix(b), mo.vectorize_matrix(ab), "vec(AB) = (I x A) vec(B)",
          rtol=1e-12, scale=mag)
    close(np.kron(b.T, np.eye(m)) @ va, mo.vectorize_matrix(ab), "vec(AB) = (B' x I) vec(A)", rtol=1e-12, scale=mag)
    va_before = va.copy()
    va[:] = 7
    exact(a, a0, "vectorising does not alias the matrix")

    # vectors
    rv = mo.make_real_vector(v)
    exact(rv, np.array([z.real for z in v] + [z.imag for z in v]), "real form of a vector")
    require(rv.dtype.kind == "f", "real vector has dtype %s" % rv.dtype)
    exact(mo.make_complex_vector(rv), v, "complex(real(v)) = v")
    exact(mo.make_real_vector(mo.make_complex_vector(rv)), rv, "real(complex(r)) = r")

    # matrices
    ra, rb = mo.make_real_matrix(a), mo.make_real_matrix(b)
    ref = np.zeros((2 * m, 2 * k))
    ref[:m, :k], ref[:m, k:], ref[m:, :k], ref[m:, k:] = a.real, -a.imag, a.imag, a.real
    exact(ra, ref, "block real form of A")
    require(np.asarray(ra).dtype.kind == "f", "real form has dtype %s" % np.asarray(ra).dtype)
    close(ra @ rb, mo.make_real_matrix(ab), "R(A)R(B) = R(AB)", rtol=1e-12, scale=mag)
    a2 = a[::-1, :] * (2 - 1j)
    close(mo.make_real_matrix(a + a2), ra + mo.make_real_matrix(a2), "R(A + B) = R(A) + R(B)", rtol=1e-13,
          scale=5 * mag + 5 * float(np.max(np.abs(a))))
    exact(mo.make_real_matrix(a.conj().T), ra.T, "R(A^H) = R(A)^T")
    close(ra @ rv, mo.make_real_vector(a @ v), "R(A) r(v) = r(Av)", rtol=1e-12,
          scale=float(np.max(np.abs(a)) * np.max(np.abs(v)) * k) + 1e-300)
    back = mo.make_complex_matrix(ra)
    exact(np.asarray(back), a, "complex(R(A)) = A")
    exact(mo.make_real_matrix(np.asarray(back)), ra, "R(complex(M)) = M")

    # sparse formats
    if c["fmt"] != "dense":
        cls = {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "coo": sp.coo_matrix}[c["fmt"]]
        sa = cls(a)
        rs = mo.make_real_matrix(sa)
        require(sp.issparse(rs), "real form of a sparse matrix is not sparse")
        require(rs.format == c["fmt"], "format %s became %s" % (c["fmt"], rs.format))
        exact(rs.toarray(), ref, "real form of a %s matrix" % c["fmt"])
        exact(sa.toarray(), a0, "sparse input unchanged")
        if c["fmt"] != "coo":
            exact(todense(mo.make_complex_matrix(rs)), a, "complex(R(A)) = A, sparse")
    exact(a, a0, "A unchanged")
    exact(b, b0, "B unchanged")
    exact(v, v0, "v unchanged")
    nt = (m > 1 or k > 1) and np.any(a.real != 0) and (c["real"] or np.any(a.imag != 0)) \
        and not (m == k and np.array_equal(a, a.T))
    if m != k:
        labels.append("rectangular")
    if not np.any(a):
        labels.append("zero")
    return {"labels": labels, "nontrivial": bool(nt)}
