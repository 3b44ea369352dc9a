"""Shared by the driver (CPython/Hypothesis) and the worker (PyPy/numpy).  Must stay Python 3.9 compatible."""
import math


class Violation(Exception):
    """The property is broken on this case.  key: stable identifier used to match known findings."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Discard(Exception):
    """The generated case lies outside the domain of the property."""


class HarnessError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


# ---------------------------------------------------------------- generators (driver side, st = hypothesis.strategies)

FLAVOURS = ["dense", "dense", "dense", "int", "sparse", "wide"]


def blob(st, n):
    """n real numbers as one block of bytes: drawn byte by byte (often all equal, shrinks towards zeros), or expanded from
    a seed (never degenerate)."""
    import random
    if n == 0:
        return st.just("")
    plain = st.binary(min_size=2 * n, max_size=2 * n).map(lambda b: b.hex())
    seeded = st.integers(0, 2 ** 32 - 1).map(lambda s: random.Random(s).randbytes(2 * n).hex())
    return st.one_of(plain, seeded, seeded) if n <= 300 else seeded


def size(st, lo, hi, big, p=16):
    """usually lo..hi, one time in p a large one"""
    return st.integers(0, p - 1).flatmap(lambda k: st.integers(lo, hi) if k < p - 1 else st.integers(hi + 1, big))


def flavour(st):
    return st.sampled_from(FLAVOURS)


# ---------------------------------------------------------------- decoding and comparing (worker side)

def reals(h, flav="dense"):
    """Decode a blob into floats.  dense: fixed point in (-8, 8); int: small integers with many ties and zeros;
    sparse: about half exact zeros; wide: magnitudes over 12 decades."""
    import numpy as np
    v = np.frombuffer(bytes.fromhex(h), dtype="<i2").astype(np.float64)
    if flav == "int":
        return np.round(v / 8192.0)
    if flav == "sparse":
        return np.where(np.abs(v) < 16384, 0.0, v / 4096.0)
    if flav == "wide":
        e = np.mod(np.abs(v), 13) - 6
        return v / 16384.0 * 10.0 ** e
    return v / 4096.0


def cplx(h, flav="dense"):
    v = reals(h, flav)
    k = len(v) // 2
    return v[:k] + 1j * v[k:2 * k]


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def same_shape(a, b, what, key=None):
    if tuple(a.shape) != tuple(b.shape):
        raise Violation("%s: shape %s, expected %s" % (what, tuple(a.shape), tuple(b.shape)), key)


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None, key=None):
    """got == want up to rtol * (largest magnitude in want, or scale) + atol, elementwise, same shape, finite."""
    import numpy as np
    g, w = np.asarray(got), np.asarray(want)
    if g.dtype == object:
        raise Violation("%s: object array returned" % what, key)
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape), key)
    if g.size == 0:
        return
    if not np.all(np.isfinite(w)):
        raise Violation("%s: non-finite values%s" % (what, " expected" if np.all(np.isfinite(g)) else ""), key)
    if not np.all(np.isfinite(g)):
        raise Violation("%s: non-finite result" % what, key)
    s = float(np.max(np.abs(w))) if scale is None else float(scale)
    err = np.abs(g - w)
    tol = rtol * s + atol
    if float(np.max(err)) > tol:
        i = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Violation("%s: at %s got %r, expected %r (tol %.3g)" % (what, tuple(int(k) for k in i), g[i].item(), w[i].item(), tol), key)


def exact(got, want, what, key=None):
    import numpy as np
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape), key)
    if g.size and not np.array_equal(g, w):
        bad = np.argwhere(~((g == w) | ((g != g) & (w != w))))
        if len(bad):
            i = tuple(int(k) for k in bad[0])
            raise Violation("%s: at %s got %r, expected %r" % (what, i, g[i].item(), w[i].item()), key)


def layout(a, k):
    """The same array in another memory layout: 1 column by column, 2 part of a larger array, 3 stored backwards."""
    import numpy as np
    if a is None or np.ndim(a) == 0 or not k:
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        big = np.full(tuple(2 * s + 1 for s in a.shape), 7, dtype=a.dtype)
        v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    r = tuple(slice(None, None, -1) for _ in a.shape)
    return np.ascontiguousarray(a[r])[r]


def layouts(st):
    return st.sampled_from([0, 0, 1, 2, 3])


def todense(m):
    import numpy as np
    if hasattr(m, "toarray"):
        return np.asarray(m.toarray())
    return np.asarray(m)
