"""A stand-in for cupy/cupyx: the device arrays and matrices are numpy/scipy objects behind a proxy that refuses implicit
transfers, the single precision types stand for the double precision ones.  It makes the GPU branches of the code
executable and comparable with the CPU ones; it says nothing about a real device."""
import sys
import types

DTYPES = {"float32": "float64", "complex64": "complex128", "float16": "float64"}


def unwrap(o):
    if isinstance(o, Dev):
        return o._a
    if isinstance(o, (list, tuple)):
        return type(o)(unwrap(i) for i in o)
    if isinstance(o, dict):
        return {k: unwrap(v) for k, v in o.items()}
    return o


def wrap(o):
    import numpy as np
    from scipy import sparse
    if isinstance(o, np.ndarray) or isinstance(o, np.generic):
        return Dev(np.asarray(o))
    if sparse.issparse(o):
        return {"csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix}.get(o.format, spmatrix)(o)
    if isinstance(o, tuple) and any(isinstance(i, np.ndarray) or sparse.issparse(i) for i in o):
        return tuple(wrap(i) for i in o)
    return o


def host(o):
    """a numpy array or scipy matrix may not meet a device array without an explicit transfer"""
    import numpy as np
    from scipy import sparse
    return (isinstance(o, np.ndarray) and o.ndim > 0) or sparse.issparse(o)


def wrapped(f):
    def g(*a, **k):
        return wrap(f(*unwrap(list(a)), **unwrap(k)))
    g.__name__ = getattr(f, "__name__", "f")
    return g


class Dev(object):
    def __init__(self, a):
        object.__setattr__(self, "_a", a)

    def get(self, *a, **k):
        return self._a.copy()

    def __array__(self, *a, **k):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy "
                        "array explicitly.")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for i in inputs:
            if host(i):
                raise TypeError("Unsupported type %s" % type(i))
        return wrap(getattr(ufunc, method)(*unwrap(list(inputs)), **unwrap(kw)))

    def __array_function__(self, func, tp, args, kwargs):
        return wrap(func(*unwrap(list(args)), **unwrap(kwargs)))

    def __getattr__(self, name):
        v = getattr(self._a, name)
        return wrapped(v) if callable(v) else wrap(v)

    def __setattr__(self, name, v):
        setattr(self._a, name, unwrap(v))

    def __getitem__(self, i):
        return wrap(self._a[unwrap(i)])

    def __setitem__(self, i, v):
        self._a[unwrap(i)] = unwrap(v)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return iter([wrap(i) for i in self._a])

    def __float__(self):
        return float(self._a)

    def __complex__(self):
        return complex(self._a)

    def __int__(self):
        return int(self._a)

    def __index__(self):
        return self._a.__index__()

    def __bool__(self):
        return bool(self._a)

    def __repr__(self):
        return "Dev(%r)" % (self._a,)


def _bin_op(name, rev, op):
    """forward and reflected operator evaluated on the host objects with the usual rules"""
    def fwd(self, other):
        if host(other):
            raise TypeError("Unsupported type %s" % type(other))
        return wrap(op(self._a, unwrap(other)))

    def bwd(self, other):
        if host(other):
            raise TypeError("Unsupported type %s" % type(other))
        return wrap(op(unwrap(other), self._a))
    setattr(Dev, name, fwd)
    if rev:
        setattr(Dev, rev, bwd)


def _operators():
    import operator as o
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul"):
        _bin_op("__%s__" % n, "__r%s__" % n, getattr(o, n))
    for n in ("and", "or", "xor"):
        _bin_op("__%s__" % n, "__r%s__" % n, getattr(o, "__%s__" % n))
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        _bin_op("__%s__" % n, None, getattr(o, n))
    for n in ("neg", "pos", "abs", "invert"):
        def u(self, _n=n):
            import operator as o_
            return wrap({"abs": abs}.get(_n, getattr(o_, _n))(self._a))
        setattr(Dev, "__%s__" % n, u)


class spmatrix(Dev):
    fmt = None

    def __init__(self, arg=None, *a, **k):
        from scipy import sparse
        arg, k = unwrap(arg), unwrap(k)
        if sparse.issparse(arg) and not a and not k and (self.fmt is None or arg.format == self.fmt):
            m = arg
        else:
            m = getattr(sparse, self.fmt + "_matrix")(arg, *unwrap(list(a)), **k)
        object.__setattr__(self, "_a", m)


class csr_matrix(spmatrix):
    fmt = "csr"


class csc_matrix(spmatrix):
    fmt = "csc"


class coo_matrix(spmatrix):
    fmt = "coo"


class Namespace(types.ModuleType):
    """numpy (or scipy.sparse) with wrapped results"""

    def __init__(self, name, base, own):
        types.ModuleType.__init__(self, name)
        self.__dict__["_base"] = base
        self.__dict__.update(own)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(self._base, DTYPES.get(name, name))
        if isinstance(v, types.ModuleType):
            v = Namespace(self.__name__ + "." + name, v, {})
        elif callable(v) and not isinstance(v, type):
            v = wrapped(v)
        self.__dict__[name] = v
        return v


def modules():
    import numpy as np
    import scipy.sparse as sp
    import scipy.sparse.linalg as spl
    if "__add__" not in Dev.__dict__:
        _operators()

    class Pool(object):
        def free_all_blocks(self):
            pass

    def spsolve(a, b, *r, **k):
        a, b = unwrap(a), unwrap(b)
        if host(a) is False or not sp.issparse(a):
            raise TypeError("spsolve needs a sparse matrix")
        return wrap(spl.spsolve(a.tocsc(), np.asarray(b)))

    cupy = Namespace("cupy", np, {
        "ndarray": Dev, "array": lambda o, *a, **k: wrap(np.array(unwrap(o), *a, **k)),
        "asarray": lambda o, *a, **k: wrap(np.asarray(unwrap(o), *a, **k)),
        "asnumpy": lambda o, *a, **k: np.array(unwrap(o)), "_default_memory_pool": Pool(),
        "get_default_memory_pool": lambda: Pool(), "get_array_module": lambda *a: cupy if any(isinstance(i, Dev) for i in a) else np})
    linalg = Namespace("cupyx.scipy.sparse.linalg", spl, {"spsolve": spsolve})
    sparse = Namespace("cupyx.scipy.sparse", sp, {
        "csr_matrix": csr_matrix, "csc_matrix": csc_matrix, "coo_matrix": coo_matrix, "spmatrix": spmatrix, "linalg": linalg,
        "issparse": lambda o: isinstance(o, spmatrix), "isspmatrix": lambda o: isinstance(o, spmatrix),
        "isspmatrix_csr": lambda o: type(o) is csr_matrix, "isspmatrix_csc": lambda o: type(o) is csc_matrix,
        "isspmatrix_coo": lambda o: type(o) is coo_matrix})
    cs = types.ModuleType("cupyx.scipy")
    cs.sparse = sparse
    cx = types.ModuleType("cupyx")
    cx.scipy = cs
    return {"cupy": cupy, "cupyx": cx, "cupyx.scipy": cs, "cupyx.scipy.sparse": sparse, "cupyx.scipy.sparse.linalg": linalg}


class Gpu(object):
    """The modules of the code under test, imported once as usual and once as if a GPU were present."""

    def __init__(self, conf, names):
        import importlib
        self.conf = conf
        self.off = conf.GPU_AVAILABLE
        self.cpu = {n: importlib.import_module(n) for n in names if "gpu" not in n}
        mods = modules()
        self.cupy = mods["cupy"]
        self.sparse = mods["cupyx.scipy.sparse"]
        kept = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "src" or k.startswith("src.")}
        sys.modules.update(mods)
        try:
            conf.GPU_AVAILABLE = True
            self.gpu = {n: importlib.import_module(n) for n in names}
        finally:
            conf.GPU_AVAILABLE = self.off
            for k in list(sys.modules):
                if k == "src" or k.startswith("src."):
                    del sys.modules[k]
            sys.modules.update(kept)
            for k in mods:
                sys.modules.pop(k, None)
        self.mods = mods

    def __enter__(self):
        self.conf.GPU_AVAILABLE = True
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        self.conf.GPU_AVAILABLE = self.off
        for k in self.mods:
            sys.modules.pop(k, None)
