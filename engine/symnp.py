"""Stand-in for the numpy module inside the symbolically executed code."""
import types
import numpy as np
from . import core
from .core import SReal, SComplex, SBool, is_sym, EngineLimit
from .sarray import (SymArray, as_sym, create, ldtype, infer_dtype, wrap,
                     coerce_scalar, apply_function, HANDLED, raw)


def _contains_sym(x, depth=0):
    if isinstance(x, SymArray) or is_sym(x):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_contains_sym(e, depth + 1) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size:
        return any(is_sym(e) for e in x.reshape(-1))
    return False


def _typed(name):
    base = getattr(np, name)
    kind = np.dtype(base).kind

    def __new__(cls, x=0, *a, **k):
        if isinstance(x, SymArray) or (isinstance(x, np.ndarray) and x.ndim):
            return x.astype(base) if isinstance(x, np.ndarray) else x
        if is_sym(x):
            v = coerce_scalar(x, base)
            return v
        return base(x, *a, **k)
    return type(name, (base,), {"__new__": __new__, "_vf_base": base})


class SymNumpy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__path__ = np.__path__
        self.__file__ = np.__file__
        self.__version__ = np.__version__

    def __getattr__(self, name):
        try:
            return getattr(np, name)
        except AttributeError:
            if name in ("object", "bool", "int", "float", "complex"):
                # aliases removed from numpy >= 1.24; the code under test
                # predates that
                return {"object": object, "bool": bool, "int": int,
                        "float": float, "complex": complex}[name]
            raise


symnp = SymNumpy()
_set = symnp.__dict__

for _n in ("float64", "float32", "complex128", "complex64", "int64", "int32",
           "uint32", "int8", "int16", "uint8", "uint64", "intp", "bool_"):
    _set[_n] = _typed(_n)
_set["double"] = _set["float64"]
_set["pi"] = core.pi_value()


def _dt(dtype, default=float):
    return np.dtype(default if dtype is None else dtype)


def zeros(shape, dtype=None, order="C", **k):
    return create(shape, _dt(dtype), 0)


def ones(shape, dtype=None, order="C", **k):
    return create(shape, _dt(dtype), 1)


def empty(shape, dtype=None, order="C", **k):
    return create(shape, _dt(dtype), None)


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        dtype = ldtype(fill_value)
    return create(shape, dtype, fill_value)


def eye(N, M=None, k=0, dtype=None, **kw):
    r = np.eye(N, M, k)
    return as_sym(r, _dt(dtype)) if _dt(dtype).kind in "fc" else \
        np.eye(N, M, k, dtype)


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def array(obj, dtype=None, copy=True, order="K", ndmin=0, **k):
    if isinstance(obj, SymArray):
        r = obj if dtype is None or np.dtype(dtype) == obj.dtype else \
            obj.astype(dtype)
        r = r.copy() if copy and r is obj else r
    elif _contains_sym(obj):
        o = np.array(_strip_list(obj), dtype=object)
        r = wrap(o, (), None if dtype is None else np.dtype(dtype))
        if dtype is not None and isinstance(r, SymArray):
            r = r.astype(dtype)
    else:
        r = np.array(obj, dtype=dtype, copy=copy, order=order, ndmin=ndmin)
        if r.dtype.kind in "fc":
            r = as_sym(r)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _strip_list(x):
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, (list, tuple)):
        return [_strip_list(e) for e in x]
    return x


def asarray(obj, dtype=None, order=None, **k):
    if isinstance(obj, SymArray):
        if dtype is None or np.dtype(dtype) == obj.dtype:
            return obj
        return obj.astype(dtype)
    if isinstance(obj, np.ndarray) and obj.dtype.kind in "iub" and (
            dtype is None or np.dtype(dtype).kind in "iub"):
        return np.asarray(obj, dtype=dtype)
    return array(obj, dtype=dtype)


def ascontiguousarray(obj, dtype=None, **k):
    return asarray(obj, dtype)


def require(a, dtype=None, requirements=None, **k):
    return asarray(a, dtype)


def atleast_1d(*a):
    r = [asarray(x) if np.ndim(x) else asarray([x]) for x in a]
    return r[0] if len(r) == 1 else r


def arange(*a, **k):
    dtype = k.pop("dtype", None)
    vals = [int(x.__index__()) if isinstance(x, core.SInt) else x for x in a]
    if any(is_sym(x) for x in vals):
        if all(not is_sym(x) or x.cval is not None for x in vals):
            vals = [float(x.cval) if is_sym(x) else x for x in vals]
        else:
            raise EngineLimit("arange with symbolic bounds")
    r = np.arange(*vals, **k)
    if dtype is not None:
        r = r.astype(dtype)
    return as_sym(r) if r.dtype.kind in "fc" else r


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    num = int(num)
    div = (num - 1) if endpoint else num
    a, b = core.mk_real(start), core.mk_real(stop)
    vals = []
    for i in range(num):
        vals.append(a + (b - a) * core.Fraction(i, div) if div else a)
    o = np.empty(num, dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    r = as_sym(o, dtype or float) if _dt(dtype).kind in "fc" else \
        np.array([int(v) for v in vals], dtype=dtype)
    return (r, (b - a) / div) if retstep else r


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def dtype_wrapper(x, *a, **k):
    return np.dtype(x, *a, **k)


def _wrapf(name):
    f = getattr(np, name)

    def g(*a, **k):
        if any(_contains_sym(x) for x in a) or \
                any(_contains_sym(x) for x in k.values()):
            if isinstance(f, np.ufunc):
                return f(*[as_sym(x) if isinstance(x, (list, tuple)) else x
                           for x in a], **k)
            return apply_function(f, a, k)
        r = f(*a, **k)
        return r
    g.__name__ = name
    return g


for _f in (zeros, ones, empty, full, eye, identity, array, asarray,
           ascontiguousarray, require, arange, linspace, isscalar,
           atleast_1d):
    _set[_f.__name__] = _f
_set["asanyarray"] = asarray
_set["asfortranarray"] = ascontiguousarray


def _like(v):
    def g(a, dtype=None, **k):
        a = asarray(a)
        shape = k.get("shape")
        return create(a.shape if shape is None else shape,
                      ldtype(a) if dtype is None else dtype, v)
    return g


_set["zeros_like"] = _like(0)
_set["ones_like"] = _like(1)
_set["empty_like"] = _like(None)


def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    return create(a.shape, ldtype(a) if dtype is None else dtype, v)


_set["full_like"] = full_like

for _n in ("concatenate", "stack", "vstack", "hstack", "column_stack",
           "dstack", "append", "where", "max", "min", "amax", "amin", "sum",
           "prod", "product", "mean", "any", "all", "unique", "argsort",
           "sort", "isclose", "allclose", "real", "imag", "angle", "round",
           "around", "dot", "outer", "meshgrid", "broadcast_to", "transpose",
           "roll", "repeat", "tile", "reshape", "ravel", "diff", "searchsorted",
           "einsum", "argwhere", "nonzero", "kron", "array_equal", "pad",
           "delete", "insert", "flip", "flipud", "fliplr", "median",
           "average", "vdot", "inner", "cumsum", "nansum", "nanmax",
           "nanargmax", "argmax", "argmin", "clip", "interp", "iscomplexobj",
           "sinc", "trace", "cross", "tensordot", "take", "squeeze", "std",
           "diag", "ediff1d", "swapaxes", "moveaxis", "split", "array_split",
           "expand_dims", "count_nonzero", "compress", "isin", "nan_to_num",
           "copyto", "result_type", "copy", "matmul", "power", "shape",
           "ndim", "size", "rot90", "rollaxis", "tri", "tril", "triu",
           "logical_and", "logical_or", "logical_not"):
    if hasattr(np, _n):
        _set[_n] = _wrapf(_n)


def _ufunc_like(name):
    f = getattr(np, name)
    import functools

    class U:
        __name__ = name

        def __call__(self, *a, **k):
            a = [as_sym(x) if isinstance(x, (list, tuple)) and
                 _contains_sym(x) else x for x in a]
            if not any(isinstance(x, np.ndarray) or is_sym(x) for x in a):
                # plain python numbers: keep exact
                if all(isinstance(x, (int, float, complex)) or
                       np.isscalar(x) for x in a):
                    lifted = [core.coerce_real(x) for x in a]
                    if all(is_sym(x) for x in lifted):
                        return f(*lifted, **k)
            return f(*a, **k)

        def __getattr__(self, n):
            return getattr(f, n)
    return U()


for _n in ("exp", "sin", "cos", "tan", "sqrt", "log", "log10", "log2",
           "arcsin", "arccos", "arctan", "arctan2", "deg2rad", "rad2deg",
           "radians", "degrees", "hypot"):
    _set[_n] = _ufunc_like(_n)


class _Sub(types.ModuleType):
    def __init__(self, name, base, over):
        super().__init__(name)
        self.__dict__["_b"] = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._b, n)


def _sub_wrap(f):
    def g(*a, **k):
        if any(_contains_sym(x) for x in a):
            return apply_function(f, a, k)
        return f(*a, **k)
    return g


_set["linalg"] = _Sub("numpy.linalg", np.linalg, {
    n: _sub_wrap(getattr(np.linalg, n))
    for n in ("norm", "inv", "det", "solve", "cholesky")})
_set["fft"] = _Sub("numpy.fft", np.fft, {
    n: _sub_wrap(getattr(np.fft, n))
    for n in ("fft2", "ifft2", "fft", "ifft", "fftshift", "ifftshift")})


# ---------------------------------------------------------------- math
class SymMath(types.ModuleType):
    def __getattr__(self, n):
        import math
        return getattr(math, n)


symmath = SymMath("math")


def _m(fn, name):
    import math
    rf = getattr(math, name)

    def g(*a):
        if any(is_sym(x) for x in a):
            r = fn(*a)
            if isinstance(r, float) and r != r and name == "sqrt":
                raise ValueError("math domain error")
            return r
        if name in ("sin", "cos", "sqrt", "exp", "log", "radians"):
            return fn(*a)
        return rf(*a)
    return g


for _n, _f in (("sin", core.sin), ("cos", core.cos), ("tan", core.tan),
               ("sqrt", core.sqrt), ("exp", core.exp), ("log", core.log),
               ("log10", core.log10), ("asin", core.asin),
               ("acos", core.acos), ("atan", core.atan),
               ("atan2", core.atan2), ("hypot", core.hypot),
               ("floor", core.floor), ("ceil", core.ceil),
               ("trunc", core.trunc), ("fabs", abs),
               ("radians", lambda x: core._lift(x) * core.pi_value() / 180),
               ("degrees", lambda x: core._lift(x) * 180 / core.pi_value()),
               ("isnan", lambda x: isinstance(x, float) and x != x),
               ("isfinite", lambda x: not isinstance(x, float)),
               ("pow", lambda x, y: x ** y)):
    symmath.__dict__[_n] = _m(_f, _n)
symmath.__dict__["pi"] = core.pi_value()
_ = (SReal, SComplex, SBool, infer_dtype, HANDLED)
