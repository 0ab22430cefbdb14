"""Load /repo's africanus modules for symbolic or concrete execution.

The real source files are executed unmodified.  What changes is what the
names ``numpy``, ``math`` and ``numba`` (and a few builtins) resolve to inside
africanus modules:

* symbolic world: numpy/math become the symbolic stand-ins,
* both worlds: numba decorators become plain Python (``generated_jit`` and
  ``overload`` dispatch on numba types exactly like the compiler would).
"""
import ast
import builtins
import functools
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import inspect
import os
import sys
import types as pytypes

REPO = os.environ.get("VERIF_REPO", "/repo")

import numpy as np          # noqa: E402
import numba                # noqa: E402
from numba import types as nbt   # noqa: E402
from numba.core import types as nbct   # noqa: E402
import numba.extending      # noqa: E402
from numba.np.numpy_support import from_dtype   # noqa: E402

from . import core          # noqa: E402

# inside compiled code numba's own types serve as dtypes
for _c in (nbct.Float, nbct.Complex, nbct.Integer, nbct.Boolean):
    _c.dtype = property(lambda self: np.dtype(
        "bool" if self is nbct.boolean else self.name))

SYMBOLIC = [True]
EXECUTED = set()            # (file, qualname) of africanus code run


# ------------------------------------------------------------- numba types
def nb_typeof(v, literal_str=False):
    from .sarray import SymArray
    if v is None:
        return nbct.none
    if isinstance(v, (bool, np.bool_, core.SBool)):
        return nbct.boolean
    if isinstance(v, core.SInt):
        return nbct.int64
    if isinstance(v, core.SReal):
        return nbct.float64
    if isinstance(v, core.SComplex):
        return nbct.complex128
    if isinstance(v, int):
        return nbct.IntegerLiteral(v)
    if isinstance(v, str):
        return nbct.StringLiteral(v) if literal_str else nbct.unicode_type
    if isinstance(v, SymArray):
        return nbct.Array(from_dtype(v.dtype), v.ndim, "C")
    if isinstance(v, np.ndarray):
        return nbct.Array(from_dtype(v.dtype), v.ndim, "C")
    if isinstance(v, np.generic):
        return from_dtype(v.dtype)
    if isinstance(v, float):
        return nbct.float64
    if isinstance(v, complex):
        return nbct.complex128
    if isinstance(v, (type, np.dtype)):
        return nbct.DType(from_dtype(np.dtype(v)))
    if isinstance(v, list):
        return nbct.List(nb_typeof(v[0]) if v else nbct.float64,
                         reflected=True)
    if isinstance(v, tuple):
        if hasattr(v, "_fields"):
            return nbct.NamedTuple(tuple(nb_typeof(x) for x in v), type(v))
        return nbct.Tuple(tuple(nb_typeof(x) for x in v))
    if callable(v):
        return nbct.pyobject
    return nbct.pyobject


def _identity_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]

    def deco(fn):
        return fn
    return deco


def generated_jit(function=None, **opts):
    def deco(fn):
        sig = inspect.signature(fn)
        names = list(sig.parameters)

        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            bound = sig.bind(*args, **kwargs)
            tys, vals = [], []
            for n in names:
                p = sig.parameters[n]
                if p.kind == p.VAR_POSITIONAL:
                    va = bound.arguments.get(n, ())
                    tys.extend(nb_typeof(v) for v in va)
                    vals.extend(va)
                elif n in bound.arguments:
                    v = bound.arguments[n]
                    tys.append(nb_typeof(v))
                    vals.append(v)
                else:
                    tys.append(nbct.Omitted(p.default))
                    vals.append(p.default)
            impl = fn(*tys)
            if not callable(impl):
                return impl
            return impl(*vals)
        wrapper.py_func = fn
        return wrapper
    if function is not None:
        return deco(function)
    return deco


class _Overloaded:
    """A plain function whose behaviour comes from numba overloads."""


_OVERLOADS = {}


def overload(target, *a, **k):
    def deco(impl_gen):
        code = getattr(target, "__code__", None)
        sig = inspect.signature(impl_gen)

        def dispatch(*args, **kwargs):
            bound = sig.bind(*args, **kwargs)
            tys = {}
            for n, p in sig.parameters.items():
                if n in bound.arguments:
                    tys[n] = nb_typeof(bound.arguments[n], literal_str=True)
                else:
                    tys[n] = nbct.Omitted(p.default)
            impl = impl_gen(**tys)
            if impl is None:
                raise TypeError("no matching overload")
            isig = inspect.signature(impl)
            vals = []
            for n, p in sig.parameters.items():
                vals.append(bound.arguments.get(n, p.default))
            if len(isig.parameters) != len(vals):
                raise TypeError("overload signature mismatch")
            return impl(*vals)
        if code is None:
            raise core.EngineLimit("overload of a non python function")
        _OVERLOADS[target] = dispatch
        # make the stub itself forward to the dispatcher
        fwd_globals = target.__globals__
        key = "__vf_dispatch_%x" % id(target)
        fwd_globals[key] = dispatch
        ns = {}
        exec("def f(*args, **kwargs):\n    return %s(*args, **kwargs)\n"
             % key, fwd_globals, ns)
        target.__code__ = ns["f"].__code__
        target.__defaults__ = None
        target.__kwdefaults__ = None
        return impl_gen
    return deco


class FakeNumba(pytypes.ModuleType):
    def __init__(self, name, base):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__path__ = []

    def __getattr__(self, n):
        return getattr(self._base, n)


def _nbrange(*a):
    return _range(*a)


fake_numba = FakeNumba("numba", numba)
fake_ext = FakeNumba("numba.extending", numba.extending)
for _n in ("jit", "njit", "cfunc", "stencil", "vectorize", "guvectorize"):
    fake_numba.__dict__[_n] = _identity_decorator
fake_numba.__dict__["generated_jit"] = generated_jit
fake_numba.__dict__["literally"] = lambda x: x
fake_numba.__dict__["prange"] = _nbrange
fake_numba.__dict__["extending"] = fake_ext
fake_ext.__dict__["overload"] = overload
fake_ext.__dict__["register_jitable"] = _identity_decorator


def _num_cast(self, x):
    from .core import SReal, is_sym
    if is_sym(x):
        from .sarray import coerce_scalar
        return coerce_scalar(x, np.dtype(self.name))
    return _orig_cast[type(self)](self, x)


_orig_cast = {}


def _patch_number_types():
    for t in {type(nbct.int32), type(nbct.float64), type(nbct.complex128)}:
        _orig_cast[t] = t.cast_python_value
        t.cast_python_value = _num_cast


_patch_number_types()


# ----------------------------------------------------------------- builtins
def _range(*a):
    return range(*[int(x.__index__()) if isinstance(x, core.SReal) and
                   x.isint else
                   (int(x) if isinstance(x, (float, np.floating, core.SReal))
                    else x) for x in a])


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, core.SReal) and
                                        not x.isint)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SFloat(np.float64, metaclass=_FMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, core.SReal):
            return core.SReal(x.r)
        if isinstance(x, str):
            t = x.strip()
            v = core.TOKENS.get(t.lstrip("+-"))
            if v is not None:
                return -v if t[0] == "-" else core.SReal(v.r)
        if isinstance(x, np.ndarray) and x.size == 1 and \
                x.dtype.kind == "f" and not isinstance(x, (np.generic,)):
            v = x.reshape(-1)[0]
            return v if core.is_sym(v) else float(v)
        return float(x)


class _CMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, core.SComplex))

    def __eq__(cls, o):
        return o is complex or o is cls

    def __hash__(cls):
        return hash(complex)


class SCplx(np.complex128, metaclass=_CMeta):
    def __new__(cls, re=0.0, im=0.0):
        if core.is_sym(re) or core.is_sym(im):
            return core.to_cplx(re) + core.to_cplx(im) * core.SComplex(
                core.ZERO, core.ONE)
        return complex(re, im) if im != 0.0 else complex(re)


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, core.SInt))

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class _TMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, x):
        return issubclass(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (core.SComplex, core.SBool, core.SReal)):
                n = x.dtype.name
                return getattr(NP_MODULE[0], "bool_" if n == "bool" else n)
            return type(x)
        return type(*a, **k)

    def __eq__(cls, o):
        return o is type or o is cls

    def __hash__(cls):
        return hash(type)


class SType(type, metaclass=_TMeta):
    pass


def _unwrap(c):
    if isinstance(c, tuple):
        return tuple(_unwrap(k) for k in c)
    return getattr(c, "_vf_base", c)


def _isinstance(x, c):
    if isinstance(x, c):
        return True
    c = _unwrap(c)
    if isinstance(x, c):
        return True
    if isinstance(x, (core.SReal, core.SComplex, core.SBool)):
        cs = c if isinstance(c, tuple) else (c,)
        want = np.complex128 if isinstance(x, core.SComplex) else (
            np.bool_ if isinstance(x, core.SBool) else (
                np.int64 if x.isint else np.float64))
        for k in cs:
            if isinstance(k, tuple):
                if _isinstance(x, k):
                    return True
                continue
            try:
                if k in (want, float if want is np.float64 else want,
                         int if want is np.int64 else want,
                         complex if want is np.complex128 else want) or \
                        (isinstance(k, type) and issubclass(want, k)):
                    return True
            except TypeError:
                pass
    return False


_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name.split(".")[0] in ("numpy", "math", "numba",
                                             "ducc0", "cmath"):
        top = name.split(".")[0]
        if top == "numpy":
            np_mod = NP_MODULE[0]
            if "." in name and fromlist:
                m = np_mod
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
                return m
            return np_mod
        if top == "math":
            return MATH_MODULE[0]
        if top == "numba":
            if name == "numba.extending" and fromlist:
                return fake_ext
            if "." in name and fromlist:
                return importlib.import_module(name)
            return fake_numba
        if top == "ducc0" and "ducc0" in STUBS:
            m = STUBS["ducc0"]
            if "." in name and fromlist:
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
            return m
    if level == 0 and name.split(".")[0] in STUBS:
        m = STUBS[name.split(".")[0]]
        if "." in name and fromlist:
            for p in name.split(".")[1:]:
                m = getattr(m, p)
        return m
    return _real_import(name, globals, locals, fromlist, level)


def _literal_eval(x):
    import ast

    def rep(v):
        if isinstance(v, (list, tuple)):
            return type(v)(rep(e) for e in v)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            t = core.TOKENS.get(repr(abs(v)))
            if t is not None:
                return t if v > 0 else -t
        return v
    return rep(ast.literal_eval(x))


_fake_ast = pytypes.ModuleType("ast")
_fake_ast.literal_eval = _literal_eval
_fake_ast.__getattr__ = lambda n: getattr(importlib.import_module("ast"), n)

NP_MODULE = [np]
MATH_MODULE = [importlib.import_module("math")]
STUBS = {"ast": _fake_ast}


def make_builtins():
    d = dict(builtins.__dict__)
    d["__import__"] = _import
    d["range"] = _range
    if SYMBOLIC[0]:
        d["__vf_fmt__"] = _fmt
        d["__vf_dtype__"] = _dtype_type
        d["float"] = SFloat
        d["complex"] = SCplx
        d["type"] = SType
        d["isinstance"] = _isinstance
    return d


class _Fmt:
    """a symbolic value inside a log or error message"""

    def __init__(self, v):
        self.v = v

    def __str__(self):
        return repr(self.v)
    __repr__ = __str__

    def __float__(self):
        return 0.0

    def __int__(self):
        return 0
    __index__ = __int__


def _fmt(left, right):
    def w(x):
        return _Fmt(x) if isinstance(x, (core.SReal, core.SComplex,
                                         core.SBool)) else x
    if isinstance(right, tuple):
        right = tuple(w(x) for x in right)
    elif not isinstance(right, dict):
        right = w(right)
    return left % right


class _FmtRewrite(ast.NodeTransformer):
    """'literal' % values  ->  __vf_fmt('literal', values)"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(
                func=ast.copy_location(ast.Name("__vf_fmt__", ast.Load()),
                                       node),
                args=[node.left, node.right], keywords=[]), node)
        return node


    def visit_Attribute(self, node):
        """dtype.type  ->  __vf_dtype__(dtype)"""
        self.generic_visit(node)
        if node.attr == "type" and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(
                func=ast.copy_location(ast.Name("__vf_dtype__", ast.Load()),
                                       node),
                args=[node.value], keywords=[]), node)
        return node


def _dtype_type(x):
    if isinstance(x, np.dtype) and x.kind in "fciu":
        return getattr(NP_MODULE[0], x.name)
    return x.type


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimization=-1):
        if not SYMBOLIC[0]:
            return super().source_to_code(data, path)
        tree = ast.parse(data, path)
        return compile(_FmtRewrite().visit(tree), path, "exec",
                       dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__builtins__"] = BUILTINS
        code = self.source_to_code(self.get_data(self.path), self.path)
        exec(code, module.__dict__)

    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "africanus" and not name.startswith("africanus."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(name, p),
                submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(name, p))
        if os.path.isdir(base):
            return importlib.machinery.PathFinder.find_spec(
                name, [os.path.dirname(base)])
        return None


BUILTINS = {}


class ConcreteNumpy(pytypes.ModuleType):
    """real numpy, except that uninitialised memory is made hostile."""

    def __init__(self):
        super().__init__("numpy")
        self.__path__ = np.__path__

    def __getattr__(self, n):
        if n in ("object", "bool", "int", "float", "complex"):
            return {"object": object, "bool": bool, "int": int,
                    "float": float, "complex": complex}[n]
        return getattr(np, n)


def _hostile(a):
    if isinstance(a, np.ndarray) and a.dtype.kind in "fc" and a.size:
        a.reshape(-1)[...] = 12345.678 + 77.7 * np.arange(a.size)
        a = a.reshape(a.shape)
    return a


def _c_empty(*a, **k):
    r = np.empty(*a, **k)
    if r.dtype.kind in "fc":
        r[...] = 12345.678 + 77.7 * np.arange(r.size).reshape(r.shape)
    return r


def _c_empty_like(*a, **k):
    r = np.empty_like(*a, **k)
    if r.dtype.kind in "fc":
        r[...] = 12345.678 + 77.7 * np.arange(r.size).reshape(r.shape)
    return r


def install(symbolic, stubs=None):
    """Prepare the world; call before importing africanus modules."""
    SYMBOLIC[0] = symbolic
    if symbolic:
        from .symnp import symnp, symmath
        NP_MODULE[0] = symnp
        MATH_MODULE[0] = symmath
    else:
        cn = ConcreteNumpy()
        cn.__dict__["empty"] = _c_empty
        cn.__dict__["empty_like"] = _c_empty_like
        NP_MODULE[0] = cn
    STUBS.update(stubs or {})
    BUILTINS.clear()
    BUILTINS.update(make_builtins())
    for m in [m for m in sys.modules if m == "africanus" or
              m.startswith("africanus.")]:
        del sys.modules[m]
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    os.environ.pop("READTHEDOCS", None)


def load(name):
    m = importlib.import_module(name)
    return m


# ---------------------------------------------------- executed functions
_repo_prefix = os.path.join(REPO, "africanus") + os.sep


def _prof(frame, event, arg):
    if event == "call":
        f = frame.f_code.co_filename
        if f.startswith(_repo_prefix):
            EXECUTED.add((os.path.relpath(f, REPO), frame.f_code.co_qualname))


def trace_on():
    sys.setprofile(_prof)


def trace_off():
    sys.setprofile(None)
