"""SymArray: numpy arrays of symbolic values, with a logical dtype."""
import builtins
import numpy as np
from . import core
from .core import (SReal, SInt, SComplex, SBool, EngineLimit, is_sym, ZERO,
                   to_cplx, mk_real, STrue, SFalse)


def zero_of(dt):
    k = np.dtype(dt).kind
    if k == "c":
        return SComplex(ZERO, ZERO)
    if k == "f":
        return ZERO
    return None


def coerce_scalar(v, dt):
    dt = np.dtype(dt)
    k = dt.kind
    if k == "O":
        return v
    if k == "c":
        if v is None:
            raise TypeError("None in complex array")
        return to_cplx(v)
    if k == "f":
        if isinstance(v, SReal):
            return SReal(v.r) if v.isint else v
        if isinstance(v, SComplex):
            if core.is_zero_const(v.im):
                return v.re
            raise TypeError("can't convert complex to float")
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return coerce_scalar(v.item(), dt)
        if isinstance(v, np.ndarray) and v.size == 1:
            return coerce_scalar(v.reshape(-1)[0], dt)
        if isinstance(v, str):
            v = float(v)
        if v is None:
            return float("nan")
        r = mk_real(v)
        return SReal(r.r) if isinstance(r, SReal) else r
    if k in "iu":
        if isinstance(v, SBool):
            return int(v)
        if isinstance(v, SReal):
            if v.isint:
                return v
            return core.trunc(v)
        if isinstance(v, SComplex):
            raise TypeError("can't convert complex to int")
        return int(v)
    if k == "b":
        if isinstance(v, SBool):
            return v
        if is_sym(v):
            return SBool.of(v != 0)
        return bool(v)
    return v


def _coerce_arr(a, dt):
    out = np.empty(a.shape, dtype=object)
    src = a.reshape(-1)
    dst = out.reshape(-1)
    if src.size:
        for i in range(src.size):
            dst[i] = coerce_scalar(src[i], dt)
    return dst.reshape(a.shape)


def raw(x):
    """plain object/native ndarray view"""
    if isinstance(x, SymArray):
        return np.ndarray.view(x, np.ndarray)
    return x


def ldtype(x):
    if isinstance(x, SymArray):
        return x._ld
    if isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, (np.generic, SReal, SComplex, SBool)):
        return x.dtype
    if isinstance(x, bool):
        return np.dtype(bool)
    if isinstance(x, int):
        return np.dtype("int64")
    if isinstance(x, float):
        return np.dtype("float64")
    if isinstance(x, complex):
        return np.dtype("complex128")
    return np.dtype(object)


def infer_dtype(objs, like=()):
    """logical dtype from elements"""
    kind = "i"
    rank = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}
    best = -1
    for v in objs:
        if isinstance(v, (SComplex, complex, np.complexfloating)):
            k = "c"
        elif isinstance(v, (SBool, bool, np.bool_)):
            k = "b"
        elif isinstance(v, (SInt, int, np.integer)):
            k = "i"
        elif isinstance(v, (SReal, float, np.floating)):
            k = "f"
        else:
            k = "O"
        if rank[k] > best:
            best = rank[k]
            kind = k
        if best == 4:
            break
    if best < 0:
        for x in like:
            if isinstance(x, (np.ndarray, SReal, SComplex)):
                return ldtype(x)
        return np.dtype("float64")
    if kind == "O":
        return np.dtype(object)
    small = any(isinstance(x, np.ndarray) and ldtype(x).kind in "fc" and
                ldtype(x).name in ("float32", "complex64") for x in like)
    big = any(isinstance(x, np.ndarray) and ldtype(x).name in
              ("float64", "complex128") for x in like)
    if small and not big:
        return np.dtype({"c": "complex64", "f": "float32", "i": "int64",
                         "b": "bool"}[kind])
    return np.dtype({"c": "complex128", "f": "float64", "i": "int64",
                     "b": "bool"}[kind])


def concrete_elem(v):
    if isinstance(v, SBool):
        return v.const
    if isinstance(v, SInt):
        c = v.cval
        return None if c is None else int(c)
    if isinstance(v, (bool, int, np.integer, np.bool_)):
        return v
    return None


def wrap(res, like=(), dt=None):
    """object ndarray / scalar -> SymArray, native array or scalar"""
    if isinstance(res, tuple):
        return tuple(wrap(r, like) for r in res)
    if isinstance(res, list):
        return [wrap(r, like) for r in res]
    if not isinstance(res, np.ndarray):
        return res
    if isinstance(res, SymArray):
        res = raw(res)
    if res.dtype != object:
        return res
    if dt is None:
        dt = infer_dtype(res.reshape(-1), like)
    dt = np.dtype(dt)
    if dt.kind in "bi" or dt.kind == "u":
        flat = [concrete_elem(v) for v in res.reshape(-1)]
        if all(v is not None for v in flat):
            return np.array(flat, dtype=dt).reshape(res.shape)
    if dt.kind == "O":
        return res
    out = res.view(SymArray)
    out._ld = dt
    if dt.kind in "fc":
        f = res.reshape(-1)
        ok = True
        for v in f:
            if dt.kind == "f":
                if not (type(v) is SReal or type(v) is float):
                    ok = False
                    break
            elif type(v) is not SComplex:
                ok = False
                break
        if not ok:
            out = _coerce_arr(res, dt).view(SymArray)
            out._ld = dt
    return out


def as_sym(a, dt=None):
    """any array-like of numbers -> SymArray (copy)"""
    if isinstance(a, SymArray):
        dt = dt or a._ld
        r = _coerce_arr(raw(a), dt)
    else:
        if not isinstance(a, np.ndarray):
            a = np.array(a, dtype=object)
        dt = np.dtype(dt) if dt is not None else (
            infer_dtype(a.reshape(-1)) if a.dtype == object else a.dtype)
        r = _coerce_arr(np.asarray(a, dtype=object)
                        if a.dtype.kind != "f" or a.dtype.itemsize != 4
                        else a, dt)
    out = r.view(SymArray)
    out._ld = np.dtype(dt)
    return out


def conv_index(ix):
    if isinstance(ix, tuple):
        return tuple(conv_index(i) for i in ix)
    if isinstance(ix, SymArray):
        k = ix._ld.kind
        r = raw(ix)
        if k == "b":
            return np.array([bool(v) for v in r.reshape(-1)],
                            dtype=bool).reshape(r.shape)
        return np.array([int(v) for v in r.reshape(-1)],
                        dtype=np.intp).reshape(r.shape)
    if isinstance(ix, SBool):
        return bool(ix)
    if isinstance(ix, SInt):
        return int(ix.__index__())
    if isinstance(ix, SReal):
        raise IndexError("only integers are valid indices")
    if isinstance(ix, slice):
        f = (lambda v: int(v.__index__()) if isinstance(v, SReal) else v)
        return slice(f(ix.start), f(ix.stop), f(ix.step))
    if isinstance(ix, list):
        return [conv_index(i) for i in ix]
    return ix


# ------------------------------------------------------------------ ufuncs
def _isnan(v):
    if isinstance(v, float):
        return v != v
    if isinstance(v, SComplex):
        return _isnan(v.re) or _isnan(v.im)
    return False


def _isinf(v):
    if isinstance(v, float):
        return v in (float("inf"), float("-inf"))
    if isinstance(v, SComplex):
        return _isinf(v.re) or _isinf(v.im)
    return False


def _isfinite(v):
    return not (_isnan(v) or _isinf(v))


def _deg2rad(v):
    return v * core.pi_value() / 180


def _rad2deg(v):
    return v * 180 / core.pi_value()


def _angle(v):
    v = to_cplx(v)
    return core.atan2(v.im, v.re)


def _and(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool.of(a) & SBool.of(b)
    return bool(a) and bool(b)


def _or(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool.of(a) | SBool.of(b)
    return bool(a) or bool(b)


def _not(a):
    if isinstance(a, SBool):
        return ~a
    if is_sym(a):
        return SBool.of(a == 0)
    return not a


def _bool_of(a):
    if isinstance(a, SBool):
        return a
    if is_sym(a):
        return SBool.of(a != 0)
    return bool(a)


def _invert(a):
    if isinstance(a, (SBool, bool, np.bool_)):
        return _not(a)
    return ~int(a)


def _bitand(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return _and(a, b)
    return int(a) & int(b)


def _bitor(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return _or(a, b)
    return int(a) | int(b)


def _conj(v):
    return v.conjugate() if hasattr(v, "conjugate") else v


def _tofloat(k):
    return SReal(k.r) if isinstance(k, SInt) else k


PYF = {
    "exp": (core.exp, 1), "sin": (core.sin, 1), "cos": (core.cos, 1),
    "tan": (core.tan, 1), "sqrt": (core.sqrt, 1), "log": (core.log, 1),
    "log10": (core.log10, 1), "log2": (core.log2, 1),
    "log1p": (lambda v: core.log(1 + v), 1),
    "expm1": (lambda v: core.exp(v) - 1, 1),
    "exp2": (lambda v: core.op_pow(core.mk_real(2), core._lift(v)), 1),
    "arcsin": (core.asin, 1), "arccos": (core.acos, 1),
    "arctan": (core.atan, 1), "arctan2": (core.atan2, 2),
    "sinh": (core.sinh, 1), "cosh": (core.cosh, 1), "tanh": (core.tanh, 1),
    "hypot": (core.hypot, 2),
    "floor": (lambda v: _tofloat(core.floor(v)), 1),
    "ceil": (lambda v: _tofloat(core.ceil(v)), 1),
    "trunc": (lambda v: _tofloat(core.trunc(v)), 1),
    "rint": (lambda v: _tofloat(core.rint(v)), 1),
    "sign": (core.sign, 1),
    "absolute": (abs, 1), "fabs": (abs, 1),
    "square": (lambda v: v * v, 1),
    "reciprocal": (lambda v: 1 / v, 1),
    "maximum": (core.maximum, 2), "minimum": (core.minimum, 2),
    "fmax": (core.maximum, 2), "fmin": (core.minimum, 2),
    "isnan": (_isnan, 1), "isinf": (_isinf, 1), "isfinite": (_isfinite, 1),
    "deg2rad": (_deg2rad, 1), "radians": (_deg2rad, 1),
    "rad2deg": (_rad2deg, 1), "degrees": (_rad2deg, 1),
    "conjugate": (_conj, 1),
    "logical_and": (_and, 2), "logical_or": (_or, 2),
    "logical_not": (_not, 1),
    "logical_xor": (lambda a, b: SBool.of(_bool_of(a)) ^ _bool_of(b), 2),
    "invert": (_invert, 1), "bitwise_and": (_bitand, 2),
    "bitwise_or": (_bitor, 2),
    "positive": (lambda v: +v, 1), "negative": (lambda v: -v, 1),
    "float_power": (lambda a, b: a ** b, 2),
    "add": (lambda a, b: _lift2(a) + b, 2),
    "subtract": (lambda a, b: _lift2(a) - b, 2),
    "multiply": (lambda a, b: _lift2(a) * b, 2),
    "less": (lambda a, b: _lift2(a) < _lift2(b), 2),
    "less_equal": (lambda a, b: _lift2(a) <= _lift2(b), 2),
    "greater": (lambda a, b: _lift2(a) > _lift2(b), 2),
    "greater_equal": (lambda a, b: _lift2(a) >= _lift2(b), 2),
    "equal": (lambda a, b: _lift2(a) == _lift2(b), 2),
    "not_equal": (lambda a, b: _lift2(a) != _lift2(b), 2),
    "true_divide": (lambda a, b: _lift2(a) / b, 2),
    "divide": (lambda a, b: _lift2(a) / b, 2),
    "power": (lambda a, b: _lift2(a) ** b, 2),
    "floor_divide": (lambda a, b: _lift2(a) // b, 2),
    "remainder": (lambda a, b: _lift2(a) % b, 2),
}


def _lift2(a):
    if is_sym(a):
        return a
    c = core.coerce_real(a)
    return a if c is None else c


BOOL_UF = {"less", "less_equal", "greater", "greater_equal", "equal",
           "not_equal", "logical_and", "logical_or", "logical_not",
           "logical_xor", "isnan", "isinf", "isfinite"}


def _np_object(x):
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind == "f" and x.dtype.itemsize == 4:
            return raw(as_sym(x))
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return np.array(x, dtype=object)
    o = np.empty((), dtype=object)
    o[()] = _lift2(x) if isinstance(x, np.generic) and \
        x.dtype.kind in "fc" else x
    return o


def out_ldtype(ufunc, inputs, objs):
    if ufunc.__name__ in BOOL_UF:
        return np.dtype(bool)
    if ufunc.__name__ in ("absolute",):
        d = ldtype(inputs[0])
        return {"complex64": np.dtype("float32"),
                "complex128": np.dtype("float64")}.get(d.name, d)
    try:
        dts = []
        for x in inputs:
            if isinstance(x, np.ndarray):
                dts.append(ldtype(x))
            elif isinstance(x, (SReal, SComplex, SBool)):
                # python-scalar like: weak
                dts.append({"i": int, "f": float, "c": complex, "b": bool}[
                    x.dtype.kind] if any(isinstance(y, np.ndarray)
                                         and y.ndim
                                         for y in inputs) else x.dtype)
            elif isinstance(x, (list, tuple)):
                dts.append(infer_dtype(np.array(x, dtype=object).reshape(-1)))
            elif isinstance(x, bool):
                dts.append(np.dtype(bool))
            elif isinstance(x, int):
                dts.append(int)
            elif isinstance(x, float):
                dts.append(float)
            elif isinstance(x, complex):
                dts.append(complex)
            else:
                dts.append(ldtype(x))
        if any(isinstance(d, np.dtype) and d.kind == "O" for d in dts):
            return None
        r = ufunc.resolve_dtypes(tuple(dts) + (None,) * ufunc.nout)
        return r[-1]
    except Exception:
        return None


def apply_ufunc(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    kw.pop("signature", None)
    name = ufunc.__name__
    if method == "__call__":
        where = kw.pop("where", True)
        objs = [_np_object(x) for x in inputs]
        if name == "matmul":
            res = _matmul(*objs)
        elif name in PYF:
            fn, nin = PYF[name]
            res = np.frompyfunc(fn, nin, 1)(*objs)
        else:
            res = ufunc(*objs, dtype=object, **kw)
        if isinstance(res, tuple):
            return tuple(wrap(r) for r in res)
        dt = np.dtype(dtype) if dtype is not None else \
            out_ldtype(ufunc, inputs, objs)
        if where is not True:
            if out is None:
                raise EngineLimit("where= without out=")
            o = out[0] if isinstance(out, tuple) else out
            m = np.broadcast_to(where, o.shape)
            res = np.broadcast_to(res, o.shape)
            for i in np.ndindex(*o.shape):
                if bool(m[i]):
                    o[i] = res[i]
            return o
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                # same-kind casting rule
                if dt is not None and not np.can_cast(dt, o._ld,
                                                      "same_kind"):
                    raise np.core._exceptions._UFuncOutputCastingError(
                        ufunc, "same_kind", dt, o._ld, 0)
            elif isinstance(o, np.ndarray) and o.dtype != object:
                if dt is not None and not np.can_cast(dt, o.dtype,
                                                      "same_kind"):
                    raise np.core._exceptions._UFuncOutputCastingError(
                        ufunc, "same_kind", dt, o.dtype, 0)
                if o.dtype.kind in "fc":
                    raise EngineLimit("symbolic store into native array")
            o[...] = res
            return o
        if not isinstance(res, np.ndarray):
            if dt is not None and dt.kind in "fc":
                return coerce_scalar(res, dt) if not isinstance(
                    res, SComplex) or dt.kind == "c" else res
            return res
        if res.ndim == 0:
            v = res.item()
            return v
        return wrap(res, [x for x in inputs if isinstance(x, np.ndarray)], dt)
    if method in ("reduce", "accumulate"):
        x = _np_object(inputs[0])
        axis = kw.pop("axis", 0)
        keepdims = kw.pop("keepdims", False)
        initial = kw.pop("initial", None)
        where = kw.pop("where", True)
        if where is not True:
            raise EngineLimit("reduce with where=")
        rest = inputs[1:]
        if rest:
            axis = rest[0]
        if name in PYF and PYF[name][1] == 2:
            pf = np.frompyfunc(PYF[name][0], 2, 1)
        elif name == "add":
            pf = np.frompyfunc(lambda a, b: a + b, 2, 1)
        elif name == "multiply":
            pf = np.frompyfunc(lambda a, b: a * b, 2, 1)
        else:
            pf = np.frompyfunc(lambda a, b: ufunc(a, b), 2, 1)
        if x.dtype == object and name in ("logical_and", "logical_or"):
            x = np.frompyfunc(_bool_of, 1, 1)(x)
            if x.ndim == 0 and not isinstance(x, np.ndarray):
                return x
        if axis is None:
            axes = tuple(range(x.ndim))
        elif isinstance(axis, (tuple, list)):
            axes = tuple(a % x.ndim for a in axis)
        else:
            axes = (int(axis) % x.ndim,) if x.ndim else ()
        if method == "accumulate":
            res = pf.accumulate(x, axis=axes[0])
            return wrap(res, [inputs[0]])
        res = x
        ident = {"add": 0, "multiply": 1, "logical_and": True,
                 "logical_or": False}.get(name, None)
        for a in sorted(axes, reverse=True):
            if res.shape[a] == 0:
                if ident is None:
                    raise ValueError("zero-size array to reduction operation"
                                     " %s which has no identity" % name)
                shp = res.shape[:a] + res.shape[a + 1:]
                r2 = np.empty(shp, dtype=object)
                r2.reshape(-1)[...] = ident
                res = r2
            else:
                res = pf.reduce(res, axis=a)
            if not isinstance(res, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = res
                res = o
        if initial is not None:
            res = pf(res, initial)
            if not isinstance(res, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = res
                res = o
        if keepdims:
            shp = list(x.shape)
            for a in axes:
                shp[a] = 1
            res = res.reshape(shp)
        src = inputs[0]
        d = ldtype(src)
        if name in BOOL_UF:
            dt = np.dtype(bool)
        elif name in ("add", "multiply") and d.kind == "b":
            dt = np.dtype("int64")
        else:
            dt = d if d.kind != "O" else None
        if dtype is not None:
            dt = np.dtype(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                o[...] = res
                return o
        if res.ndim == 0:
            v = res.item()
            if dt is not None and dt.kind in "fc":
                v = coerce_scalar(v, dt)
            return v
        return wrap(res, [src], dt)
    if method == "at":
        a, ix = inputs[0], inputs[1]
        ix = conv_index(ix)
        a0 = raw(a)
        if len(inputs) == 3:
            fn = PYF[name][0] if name in PYF else (
                lambda p, q: ufunc(p, q))
            b = inputs[2]
            tmp = np.arange(a0.size).reshape(a0.shape)[ix]
            bb = np.broadcast_to(_np_object(b), tmp.shape)
            flat = a0.reshape(-1)
            if not np.shares_memory(flat, a0):
                raise EngineLimit("ufunc.at on non-contiguous array")
            for i, v in zip(tmp.reshape(-1), bb.reshape(-1)):
                nv = fn(flat[i], v)
                if isinstance(a, SymArray):
                    nv = coerce_scalar(nv, a._ld)
                flat[i] = nv
            return None
        raise EngineLimit("ufunc.at")
    if method == "outer":
        a, b = _np_object(inputs[0]), _np_object(inputs[1])
        aa = wrap(a.reshape(a.shape + (1,) * b.ndim))
        return apply_ufunc(ufunc, "__call__", (aa, wrap(b)), {})
    raise EngineLimit("ufunc method " + method)


def _dot_sum(av, bv):
    s = None
    for x, y in zip(av, bv):
        t = x * y
        s = t if s is None else s + t
    return ZERO if s is None else s


def _matmul(a, b):
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: mismatch in core dimension")
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, lead + a.shape[-2:])
    b = np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for ix in np.ndindex(*lead):
        for i in range(a.shape[-2]):
            for j in range(b.shape[-1]):
                out[ix + (i, j)] = _dot_sum(a[ix + (i,)], b[ix][:, j])
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return out


# ------------------------------------------------------------------ array
class SymArray(np.ndarray):
    _ld = np.dtype("float64")

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ld = getattr(obj, "_ld", np.dtype("float64"))

    @property
    def dtype(self):
        return self._ld

    @dtype.setter
    def dtype(self, v):
        raise EngineLimit("dtype assignment")

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self._ld.itemsize * self.size

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return apply_function(func, args, kwargs)

    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(raw(self), conv_index(ix))
        if isinstance(r, np.ndarray) and r.dtype == object:
            r = r.view(SymArray)
            r._ld = self._ld
            return r
        if self._ld.itemsize == 4 and self._ld.kind == "f" and \
                type(r) is SReal:
            return SReal32(r.r)
        if self._ld.itemsize == 8 and self._ld.kind == "c" and \
                type(r) is SComplex:
            return SComplex64(r.re, r.im)
        return r

    def __setitem__(self, ix, v):
        ix = conv_index(ix)
        if isinstance(v, np.ndarray) and v.ndim == 0 and not is_sym(v):
            v = v.item()
        if isinstance(v, (list, tuple)):
            v = np.array([raw(e) if isinstance(e, SymArray) else e
                          for e in v], dtype=object)
        if isinstance(v, np.ndarray):
            if v.size and self._ld.kind in "fi" and \
                    ldtype(v).kind == "c":
                # numpy discards the imaginary part (ComplexWarning)
                v = np.frompyfunc(lambda q: to_cplx(q).re, 1, 1)(
                    raw(v) if isinstance(v, SymArray) else v)
            v = _coerce_arr(raw(v) if isinstance(v, SymArray) else v,
                            self._ld)
        else:
            v = coerce_scalar(v, self._ld)
        np.ndarray.__setitem__(raw(self), ix, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return any(bool(e == v) for e in raw(self).reshape(-1))

    @property
    def real(self):
        if self._ld.kind != "c":
            return self
        return PartView.make(self, 0)

    @real.setter
    def real(self, v):
        self.real[...] = v

    @property
    def imag(self):
        if self._ld.kind != "c":
            z = as_sym(np.zeros(self.shape), self._ld)
            return z
        return PartView.make(self, 1)

    @imag.setter
    def imag(self, v):
        self.imag[...] = v

    def conj(self):
        return apply_ufunc(np.conjugate, "__call__", (self,), {})

    conjugate = conj

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt.kind in "iu":
            return np.array([int(v) for v in raw(self).reshape(-1)],
                            dtype=dt).reshape(self.shape)
        if dt.kind == "b":
            return wrap(np.frompyfunc(_bool_of, 1, 1)(raw(self))
                        if self.ndim else raw(self), (), dt)
        if dt.kind == "O":
            return raw(self).copy()
        if dt.kind not in "fc":
            raise EngineLimit("astype " + str(dt))
        src = raw(self)
        if dt.kind == "f" and self._ld.kind == "c":
            src = raw(self.real)
        return as_sym(src, dt)

    def view(self, *a, **k):
        t = a[0] if a else k.get("type", k.get("dtype"))
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return np.ndarray.view(self, t)
        if t is None:
            return np.ndarray.view(self)
        dt = np.dtype(t)
        if dt == self._ld:
            return np.ndarray.view(self)
        raise EngineLimit("view(dtype)")

    def copy(self, order="C"):
        r = np.array(raw(self), dtype=object, copy=True).view(SymArray)
        r._ld = self._ld
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        return raw(self).item(*a)

    def tolist(self):
        return raw(self).tolist()

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return apply_ufunc(np.add, "reduce", (self,),
                           dict(axis=axis, dtype=dtype, keepdims=keepdims))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return apply_ufunc(np.multiply, "reduce", (self,),
                           dict(axis=axis, dtype=dtype, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        if axis is None:
            n = self.size
        elif isinstance(axis, tuple):
            n = int(np.prod([self.shape[a] for a in axis]))
        else:
            n = self.shape[axis]
        if n == 0:
            return float("nan")
        return s / n

    def max(self, axis=None, out=None, keepdims=False, **k):
        return apply_ufunc(np.maximum, "reduce", (self,),
                           dict(axis=axis, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return apply_ufunc(np.minimum, "reduce", (self,),
                           dict(axis=axis, keepdims=keepdims))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return apply_ufunc(np.logical_or, "reduce", (self,),
                           dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return apply_ufunc(np.logical_and, "reduce", (self,),
                           dict(axis=axis, keepdims=keepdims))

    def dot(self, b):
        return dot(self, b)

    def argmax(self, axis=None, out=None):
        return _argext(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, out=None):
        return _argext(self, axis, lambda a, b: a < b)

    def cumsum(self, axis=None, **k):
        a = self.reshape(-1) if axis is None else self
        return apply_ufunc(np.add, "accumulate", (a,),
                           dict(axis=0 if axis is None else axis))

    def round(self, decimals=0, out=None):
        if decimals:
            raise EngineLimit("round(decimals)")
        return apply_ufunc(np.rint, "__call__", (self,), {})

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = apply_ufunc(np.maximum, "__call__", (r, lo), {})
        if hi is not None:
            r = apply_ufunc(np.minimum, "__call__", (r, hi), {})
        return r

    def nonzero(self):
        m = np.array([bool(_bool_of(v)) for v in raw(self).reshape(-1)],
                     dtype=bool).reshape(self.shape)
        return m.nonzero()

    def argsort(self, axis=-1, kind=None, order=None):
        return _argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        ix = _argsort(self, axis)
        self[...] = np.take_along_axis(raw(self), ix, axis)

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def std(self, axis=None, **k):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        return apply_ufunc(np.sqrt, "__call__", ((d * d).mean(axis=axis),),
                           {})

    def trace(self, *a, **k):
        return sum(self[i, i] for i in range(min(self.shape)))

    def __repr__(self):
        return "SymArray(%s, dtype=%s)" % (
            np.array2string(raw(self), formatter={"all": repr}), self._ld)

    __str__ = __repr__

    def __bool__(self):
        if self.size != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(raw(self).reshape(-1)[0])

    def __float__(self):
        return float(raw(self).reshape(-1)[0])

    def __int__(self):
        return int(raw(self).reshape(-1)[0])

    def __reduce__(self):
        raise EngineLimit("pickling symbolic arrays")


class PartView(SymArray):
    """.real/.imag of a complex SymArray; writes go to the parent."""

    _parent = None
    _part = 0

    @staticmethod
    def make(parent, part):
        f = np.frompyfunc((lambda v: v.re) if part == 0 else
                          (lambda v: v.im), 1, 1)
        p = raw(parent)
        if p.ndim == 0:
            o = np.empty((), dtype=object)
            o[()] = p.item().re if part == 0 else p.item().im
            r = o
        else:
            r = f(p)
        r = r.view(PartView)
        r._ld = np.dtype("float32" if parent._ld.name == "complex64"
                         else "float64")
        r._parent, r._part = parent, part
        return r

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ld = getattr(obj, "_ld", np.dtype("float64"))
        self._parent = None

    def __getitem__(self, ix):
        ix = conv_index(ix)
        if self._parent is not None:
            sub = self._parent[ix]
            if isinstance(sub, SymArray):
                return PartView.make(sub, self._part)
            return sub.re if self._part == 0 else sub.im
        return SymArray.__getitem__(self, ix)

    def __setitem__(self, ix, v):
        SymArray.__setitem__(self, ix, v)
        if self._parent is not None:
            ix = conv_index(ix)
            new = np.ndarray.__getitem__(raw(self), ix)
            old = self._parent[ix]
            part = self._part

            def upd(o, n):
                return SComplex(n, o.im) if part == 0 else SComplex(o.re, n)
            if isinstance(old, SymArray):
                res = np.frompyfunc(upd, 2, 1)(raw(old), new)
            else:
                res = upd(old, new)
            self._parent[ix] = res

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.get("out")
        if out:
            o = out[0]
            if isinstance(o, PartView):
                kw.pop("out")
                o[...] = apply_ufunc(ufunc, method, inputs, kw)
                return o
        return apply_ufunc(ufunc, method, inputs, kw)


def _argsort(a, axis=-1):
    import functools
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    r = np.moveaxis(raw(a), axis, -1)
    out = np.empty(r.shape, dtype=np.intp)
    for ix in np.ndindex(*r.shape[:-1]):
        row = r[ix]

        def cmp(i, j):
            if bool(row[i] < row[j]):
                return -1
            if bool(row[j] < row[i]):
                return 1
            return 0
        out[ix] = sorted(range(len(row)), key=functools.cmp_to_key(cmp))
    return np.moveaxis(out, -1, axis)


def _argext(a, axis, better):
    r = raw(a)
    if axis is None:
        r = r.reshape(-1)
        axis = 0
    r = np.moveaxis(r, axis, -1)
    out = np.empty(r.shape[:-1], dtype=np.intp)
    if r.shape[-1] == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    for ix in np.ndindex(*r.shape[:-1]):
        row = r[ix]
        b = 0
        for i in range(1, len(row)):
            if bool(better(row[i], row[b])):
                b = i
        out[ix] = b
    return out if out.ndim else int(out)


def dot(a, b):
    a_, b_ = _np_object(a), _np_object(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return apply_ufunc(np.multiply, "__call__", (a, b), {})
    if b_.ndim <= 1 or a_.ndim == 1:
        if a_.ndim == 1 and b_.ndim == 1:
            if a_.shape != b_.shape:
                raise ValueError("shapes not aligned")
            return _dot_sum(a_, b_)
        if b_.ndim == 1:
            if a_.shape[-1] != b_.shape[0]:
                raise ValueError("shapes not aligned")
            out = np.empty(a_.shape[:-1], dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = _dot_sum(a_[ix], b_)
            return wrap(out, [a, b])
        return wrap(np.tensordot(a_, b_, axes=(-1, -2)), [a, b])
    if a_.shape[-1] != b_.shape[-2]:
        raise ValueError("shapes not aligned")
    if a_.ndim == 2 and b_.ndim == 2:
        return wrap(_matmul(a_, b_), [a, b])
    return wrap(np.tensordot(a_, b_, axes=(-1, -2)), [a, b])


class SReal32(SReal):
    """element of a single precision array"""
    __slots__ = ()
    dtype = np.dtype("float32")


class SComplex64(SComplex):
    __slots__ = ()
    dtype = np.dtype("complex64")


# ------------------------------------------------------ __array_function__
def _strip(x):
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, (SReal, SComplex, SBool)):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if type(x) in (list, tuple) and any(is_sym(e) for e in x) and \
            all(is_sym(e) or np.isscalar(e) for e in x):
        o = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            o[i] = e
        return o
    if isinstance(x, (list,)):
        return [_strip(e) for e in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_strip(e) for e in x)
    return x


def _flat_arrays(x, acc):
    if isinstance(x, np.ndarray):
        acc.append(x)
    elif isinstance(x, (SReal, SComplex, SBool)):
        acc.append(as_sym(_strip(x)))
    elif isinstance(x, (list, tuple)):
        for e in x:
            _flat_arrays(e, acc)


HANDLED = {}


def implements(*fns):
    def deco(f):
        for fn in fns:
            HANDLED[fn] = f
        return f
    return deco


def apply_function(func, args, kwargs):
    h = HANDLED.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func is np.stack and args and isinstance(args[0], (list, tuple)) \
            and any(is_sym(e) and not isinstance(e, np.ndarray)
                    for e in args[0]):
        # scalars: as 0-d arrays, _strip would make one array of the list
        args = ([e if isinstance(e, np.ndarray) else as_sym(_strip(e))
                 if is_sym(e) else np.asarray(e) for e in args[0]],) + \
            tuple(args[1:])
    mod = getattr(func, "__module__", "") or ""
    if "linalg" in mod or "fft" in mod:
        raise EngineLimit("numpy function %s on symbolic arrays"
                          % func.__name__)
    kwargs = dict(kwargs)
    dt = None
    if "dtype" in kwargs and kwargs["dtype"] is not None:
        dt = np.dtype(kwargs.pop("dtype"))
    out = kwargs.pop("out", None)
    acc = []
    _flat_arrays(args, acc)
    _flat_arrays(tuple(kwargs.values()), acc)
    res = func(*[_strip(a) for a in args],
               **{k: _strip(v) for k, v in kwargs.items()})
    res = wrap(res, acc)
    if dt is not None and isinstance(res, SymArray):
        res = res.astype(dt)
    # keep the exact logical dtype for pure re-arrangements
    if isinstance(res, SymArray) and dt is None:
        lds = {ldtype(a) for a in acc}
        if len(lds) == 1:
            (ld,) = lds
            if ld.kind == res._ld.kind:
                res._ld = ld
            elif ld.kind == "c" and res._ld.kind == "f" and res.size == 0:
                res._ld = ld
    if out is not None:
        out[...] = res
        return out
    return res


@implements(np.dot)
def _np_dot(a, b, out=None):
    r = dot(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.vdot)
def _np_vdot(a, b):
    a_, b_ = _np_object(a).reshape(-1), _np_object(b).reshape(-1)
    return _dot_sum([_conj(x) for x in a_], b_)


@implements(np.inner)
def _np_inner(a, b):
    return dot(a, np.asarray(b).T if np.ndim(b) > 1 else b)


@implements(np.real)
def _np_real(a):
    return a.real if hasattr(a, "real") else a


@implements(np.imag)
def _np_imag(a):
    return a.imag if hasattr(a, "imag") else ZERO


@implements(np.angle)
def _np_angle(z, deg=False):
    r = _elem(_angle, z)
    return _np_rad2deg(r) if deg else r


def _np_rad2deg(x):
    return _elem(_rad2deg, x)


def _elem(f, *xs):
    objs = [_np_object(x) for x in xs]
    r = np.frompyfunc(f, len(xs), 1)(*objs)
    if not isinstance(r, np.ndarray):
        return r
    if r.ndim == 0:
        return r.item()
    return wrap(r, [x for x in xs if isinstance(x, np.ndarray)])


@implements(np.isclose)
def _np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        d = abs(x - y)
        return SBool.of(d <= core.mk_real(atol) + core.mk_real(rtol) * abs(y))
    return _elem(f, a, b)


@implements(np.allclose)
def _np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _np_isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return bool(r.all())
    return bool(r)


@implements(np.array_equal)
def _np_array_equal(a, b, equal_nan=False):
    if np.shape(a) != np.shape(b):
        return False
    return bool(np.all(np.equal(a, b)))


@implements(np.iscomplexobj)
def _np_iscomplexobj(x):
    return ldtype(x).kind == "c"


@implements(np.isrealobj)
def _np_isrealobj(x):
    return ldtype(x).kind != "c"


@implements(np.where)
def _np_where(cond, *xy):
    if not xy:
        return np.nonzero(np.asarray(cond) if not isinstance(
            cond, np.ndarray) else cond)
    x, y = xy

    def f(c, a, b):
        return a if bool(_bool_of(c)) else b
    objs = [_np_object(v) for v in (cond, x, y)]
    r = np.frompyfunc(f, 3, 1)(*objs)
    if not isinstance(r, np.ndarray):
        return r
    if r.ndim == 0:
        return r.item()
    return wrap(r, [v for v in (x, y) if isinstance(v, np.ndarray)])


@implements(np.nonzero)
def _np_nonzero(a):
    return a.nonzero()


@implements(np.argwhere)
def _np_argwhere(a):
    return np.transpose(a.nonzero())


@implements(np.flatnonzero)
def _np_flatnonzero(a):
    return a.reshape(-1).nonzero()[0]


@implements(np.count_nonzero)
def _np_cnz(a, axis=None, keepdims=False):
    m = np.array([bool(_bool_of(v)) for v in raw(a).reshape(-1)],
                 dtype=bool).reshape(a.shape)
    return np.count_nonzero(m, axis=axis)


@implements(np.argmax)
def _np_argmax(a, axis=None, out=None):
    return as_arr(a).argmax(axis)


@implements(np.argmin)
def _np_argmin(a, axis=None, out=None):
    return as_arr(a).argmin(axis)


@implements(np.nanargmax)
def _np_nanargmax(a, axis=None):
    if axis is not None:
        raise EngineLimit("nanargmax axis")
    r = raw(as_arr(a)).reshape(-1)
    best = None
    for i, v in enumerate(r):
        if _isnan(v):
            continue
        if best is None or bool(v > r[best]):
            best = i
    if best is None:
        raise ValueError("All-NaN slice encountered")
    return best


@implements(np.nanmax)
def _np_nanmax(a, axis=None, **k):
    if axis is not None:
        raise EngineLimit("nanmax axis")
    r = raw(as_arr(a)).reshape(-1)
    return r[_np_nanargmax(a)]


@implements(np.nansum)
def _np_nansum(a, axis=None, **k):
    z = np.frompyfunc(lambda v: ZERO if _isnan(v) else v, 1, 1)(
        raw(as_arr(a)))
    return wrap(z, [a]).sum(axis=axis)


@implements(np.nan_to_num)
def _np_nan_to_num(a, copy=True, nan=0.0, **k):
    return _elem(lambda v: core.mk_real(nan) if _isnan(v) else v, a)


def as_arr(a):
    if isinstance(a, SymArray):
        return a
    return as_sym(a)


@implements(np.argsort)
def _np_argsort(a, axis=-1, kind=None, order=None):
    return _argsort(as_arr(a), axis)


@implements(np.sort)
def _np_sort(a, axis=-1, kind=None, order=None):
    ix = _argsort(as_arr(a), axis)
    return wrap(np.take_along_axis(raw(as_arr(a)), ix, axis), [a])


@implements(np.unique)
def _np_unique(ar, return_index=False, return_inverse=False,
               return_counts=False, axis=None, **k):
    if axis is not None:
        raise EngineLimit("unique axis")
    f = raw(as_arr(ar)).reshape(-1)
    perm = _argsort(wrap(f, [ar], ldtype(ar)), 0)
    groups = []
    for i in perm:
        if groups and bool(f[groups[-1][-1]] == f[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = np.empty(len(groups), dtype=object)
    for g, gr in enumerate(groups):
        vals[g] = f[min(gr)]
    res = [wrap(vals, [ar], ldtype(ar))]
    if return_index:
        res.append(np.array([min(gr) for gr in groups], dtype=np.intp))
    if return_inverse:
        inv = np.empty(len(f), dtype=np.intp)
        for g, gr in enumerate(groups):
            for i in gr:
                inv[i] = g
        res.append(inv)
    if return_counts:
        res.append(np.array([len(gr) for gr in groups], dtype=np.intp))
    return res[0] if len(res) == 1 else tuple(res)


@implements(np.searchsorted)
def _np_searchsorted(a, v, side="left", sorter=None):
    arr = raw(as_arr(a)) if isinstance(a, np.ndarray) else list(a)
    if sorter is not None:
        arr = [arr[i] for i in sorter]

    def one(x):
        n = 0
        for e in arr:
            c = (e < x) if side == "left" else (e <= x)
            if not bool(c):
                break
            n += 1
        return n
    if not isinstance(v, (np.ndarray, list, tuple)):
        return one(v)
    r = np.array([one(x) for x in _np_object(v).reshape(-1)], dtype=np.intp)
    return r.reshape(np.shape(v))


@implements(np.interp)
def _np_interp(x, xp, fp, left=None, right=None, period=None):
    def one(v):
        n = len(xp)
        if bool(v <= xp[0]):
            return fp[0] if left is None or bool(v == xp[0]) else left
        for i in range(1, n):
            if bool(v <= xp[i]):
                t = (v - xp[i - 1]) / (xp[i] - xp[i - 1])
                return fp[i - 1] + t * (fp[i] - fp[i - 1])
        return fp[-1] if right is None else right
    return _elem(one, x)


@implements(np.einsum)
def _np_einsum(*ops, **kw):
    kw.pop("optimize", None)
    kw.pop("order", None)
    dt = kw.pop("dtype", None)
    out = kw.pop("out", None)
    subs, arrs = ops[0], ops[1:]
    if not isinstance(subs, str):
        raise EngineLimit("einsum form")
    objs = [_np_object(a) for a in arrs]
    subs = subs.replace(" ", "")
    if "..." in subs:
        raise EngineLimit("einsum ellipsis")
    if "->" in subs:
        ins, o = subs.split("->")
    else:
        ins = subs
        letters = sorted(set(ins.replace(",", "")))
        o = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    dims = {}
    for s, a in zip(ins, objs):
        for c, n in zip(s, a.shape):
            if dims.get(c, 1) not in (1, n) and n != 1:
                raise ValueError("einsum dims")
            dims[c] = max(dims.get(c, 1), n)
    con = [c for c in dims if c not in o]
    res = np.empty(tuple(dims[c] for c in o), dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(o, ix))
        s = None
        for jx in np.ndindex(*[dims[c] for c in con]):
            env.update(zip(con, jx))
            t = None
            for sub, a in zip(ins, objs):
                v = a[tuple(env[c] if a.shape[k] > 1 else 0
                            for k, c in enumerate(sub))]
                t = v if t is None else t * v
            s = t if s is None else s + t
        res[ix] = ZERO if s is None else s
    if res.ndim == 0:
        return res.item()
    r = wrap(res, list(arrs), dt)
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.linalg.norm)
def _np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise EngineLimit("norm ord")
    x = as_arr(x)
    if x.dtype.kind == "c":
        s = (x.real * x.real + x.imag * x.imag).sum(axis=axis,
                                                    keepdims=keepdims)
    else:
        s = (x * x).sum(axis=axis, keepdims=keepdims)
    return _elem(core.sqrt, s) if isinstance(s, np.ndarray) else core.sqrt(s)


@implements(np.linalg.det)
def _np_det(a):
    a = raw(as_arr(a))
    if a.ndim != 2:
        raise EngineLimit("det nd")
    return _det([list(r) for r in a])


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    s = None
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * _det(minor)
        t = t if j % 2 == 0 else -t
        s = t if s is None else s + t
    return s


@implements(np.linalg.inv)
def _np_inv(a):
    a = raw(as_arr(a))
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape[:-2]):
            out[ix] = raw(_np_inv(wrap(a[ix])))
        return wrap(out)
    n = a.shape[0]
    m = [list(r) for r in a]
    d = _det(m)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = core.ONE
            else:
                minor = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
                c = _det(minor)
            if (i + j) % 2:
                c = -c
            out[i, j] = c / d
    return wrap(out)


@implements(np.linalg.solve)
def _np_solve(a, b):
    return dot(_np_inv(a), b)


@implements(np.linalg.cholesky)
def _np_cholesky(a):
    a = raw(as_arr(a))
    n = a.shape[0]
    L = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            L[i, j] = ZERO
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j]
            for k in range(j):
                s = s - L[i, k] * _conj(L[j, k])
            if i == j:
                piv = s.real if isinstance(s, SComplex) else s
                if piv <= 0:
                    raise np.linalg.LinAlgError(
                        "Matrix is not positive definite")
                L[i, j] = core.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return wrap(L)


@implements(np.zeros_like)
def _np_zeros_like(a, dtype=None, **k):
    return _full_like(a, 0, dtype)


@implements(np.ones_like)
def _np_ones_like(a, dtype=None, **k):
    return _full_like(a, 1, dtype)


@implements(np.empty_like)
def _np_empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    sh = a.shape if shape is None else shape
    return create(sh, dtype if dtype is not None else ldtype(a), None)


@implements(np.full_like)
def _np_full_like(a, v, dtype=None, **k):
    return _full_like(a, v, dtype)


def _full_like(a, v, dtype):
    return create(a.shape, dtype if dtype is not None else ldtype(a), v)


_JUNK = [0]


def create(shape, dtype, v):
    """array filled with v; v=None -> uninitialised (arbitrary) contents"""
    dt = np.dtype(dtype)
    if isinstance(shape, (SReal,)):
        shape = int(shape.__index__())
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s.__index__()) if isinstance(s, SReal) else s
                      for s in shape)
    if dt.kind in "fc":
        out = np.empty(shape, dtype=object)
        f = out.reshape(-1)
        if v is None:
            # uninitialised memory: every element an arbitrary value
            for i in range(f.size):
                _JUNK[0] += 1
                x = core.in_real("junk%d" % _JUNK[0])[0]
                f[i] = x if dt.kind == "f" else SComplex(x, x)
        else:
            c = coerce_scalar(v, dt)
            for i in range(f.size):
                f[i] = c
        out = f.reshape(out.shape).view(SymArray)
        out._ld = dt
        return out
    if v is None:
        return np.zeros(shape, dtype=dt)
    if is_sym(v) and dt.kind in "iub":
        v = int(v)
    return np.full(shape, v, dtype=dt)


@implements(np.copyto)
def _np_copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        for ix in np.ndindex(*dst.shape):
            w = np.broadcast_to(where, dst.shape)[ix]
            if bool(w):
                dst[ix] = np.broadcast_to(src, dst.shape)[ix]
    else:
        dst[...] = src


@implements(np.result_type)
def _np_result_type(*a):
    return np.result_type(*[ldtype(x) if isinstance(
        x, (SymArray, SReal, SComplex, SBool)) else x for x in a])


@implements(np.can_cast)
def _np_can_cast(a, b, casting="safe"):
    return np.can_cast(ldtype(a) if isinstance(a, SymArray) else a, b,
                       casting)


@implements(np.median)
def _np_median(a, **k):
    raise EngineLimit("median")


@implements(np.round, np.around)
def _np_round(a, decimals=0, out=None):
    if decimals:
        raise EngineLimit("round decimals")
    return _elem(lambda v: _tofloat(core.rint(v)), a)


@implements(np.sinc)
def _np_sinc(a):
    return _elem(core.sinc, a)


@implements(np.clip)
def _np_clip(a, lo=None, hi=None, out=None, **k):
    r = a
    if lo is not None:
        r = apply_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = apply_ufunc(np.minimum, "__call__", (r, hi), {})
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.sum)
def _np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    r = as_arr2(a).sum(axis=axis, keepdims=bool(keepdims is True))
    if out is not None:
        out[...] = r
        return out
    return r


@implements(np.prod, np.product)
def _np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_arr2(a).prod(axis=axis)


@implements(np.mean)
def _np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_arr2(a).mean(axis=axis, keepdims=bool(keepdims is True))


@implements(np.average)
def _np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return _np_mean(a, axis)
    return _np_sum(a * weights, axis) / _np_sum(weights, axis)


@implements(np.max, np.amax)
def _np_max(a, axis=None, out=None, keepdims=False, **k):
    return as_arr2(a).max(axis=axis, keepdims=bool(keepdims is True))


@implements(np.min, np.amin)
def _np_min(a, axis=None, out=None, keepdims=False, **k):
    return as_arr2(a).min(axis=axis, keepdims=bool(keepdims is True))


@implements(np.any)
def _np_any(a, axis=None, out=None, keepdims=False, **k):
    return as_arr2(a).any(axis=axis, keepdims=bool(keepdims is True))


@implements(np.all)
def _np_all(a, axis=None, out=None, keepdims=False, **k):
    return as_arr2(a).all(axis=axis, keepdims=bool(keepdims is True))


@implements(np.std)
def _np_std(a, axis=None, **k):
    return as_arr2(a).std(axis=axis)


@implements(np.cumsum)
def _np_cumsum(a, axis=None, dtype=None, out=None):
    return as_arr2(a).cumsum(axis=axis)


def as_arr2(a):
    if isinstance(a, np.ndarray) and not isinstance(a, SymArray) and \
            a.dtype != object:
        return a
    if isinstance(a, SymArray):
        return a
    return as_sym(a)


@implements(np.diff)
def _np_diff(a, n=1, axis=-1, **k):
    a = as_arr(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


@implements(np.ediff1d)
def _np_ediff1d(a, to_end=None, to_begin=None):
    return _np_diff(a.reshape(-1))


@implements(np.array_repr, np.array_str, np.array2string)
def _np_repr(a, *x, **k):
    return repr(a)


def _sym_af(self, func, types, args, kwargs):
    return apply_function(func, args, kwargs)


SReal.__array_function__ = _sym_af
SComplex.__array_function__ = _sym_af
SBool.__array_function__ = _sym_af


# DFT of symbolic arrays by definition
def _dft(a, axes, inverse, norm=None, shape=None):
    a = as_arr(a)
    if norm not in (None, "backward") or shape is not None:
        raise core.EngineLimit("fft with a norm or a shape")
    r = a.astype("complex128")
    for ax in axes:
        n = r.shape[ax]
        x = np.moveaxis(raw(r), ax, -1)
        out = np.empty(x.shape, dtype=object)
        tw = []
        for k in range(n):
            th = SReal(core.rconst(core.Fraction(2 * k, n))) * core.pi_value()
            c, s = core.cos(th), core.sin(th)
            tw.append(SComplex(c, s if inverse else -s))
        for ix in np.ndindex(*x.shape[:-1]):
            for k in range(n):
                s = None
                for j in range(n):
                    t = x[ix + (j,)] * tw[(j * k) % n]
                    s = t if s is None else s + t
                out[ix + (k,)] = s / n if inverse else s
        r = as_sym(np.moveaxis(out, -1, ax), "complex128")
    return r


@implements(np.fft.fft2)
def _fft2(a, s=None, axes=(-2, -1), norm=None):
    return _dft(a, axes, False, norm, s)


@implements(np.fft.ifft2)
def _ifft2(a, s=None, axes=(-2, -1), norm=None):
    return _dft(a, axes, True, norm, s)


@implements(np.fft.fft)
def _fft(a, n=None, axis=-1, norm=None):
    return _dft(a, (axis,), False, norm, n)


@implements(np.fft.ifft)
def _ifft(a, n=None, axis=-1, norm=None):
    return _dft(a, (axis,), True, norm, n)


def _shift(a, axes, sgn):
    a = as_arr(a)
    if axes is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axes, int):
        axes = (axes,)
    r = raw(a)
    for ax in axes:
        n = r.shape[ax]
        r = np.roll(r, n // 2 if sgn > 0 else -(n // 2), ax)
    return wrap(r, [a], a._ld)


@implements(np.fft.fftshift)
def _fftshift(a, axes=None):
    return _shift(a, axes, 1)


@implements(np.fft.ifftshift)
def _ifftshift(a, axes=None):
    return _shift(a, axes, -1)


_ = builtins
