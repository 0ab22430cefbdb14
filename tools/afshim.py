"""Lets africanus modules import with a numba that has no generated_jit:
the decorated functions run as plain Python."""
import os
os.environ["NUMBA_DISABLE_JIT"] = "1"
import sys                       # noqa: E402
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import inspect                   # noqa: E402
import functools                 # noqa: E402
import numpy as np               # noqa: E402
import numba                     # noqa: E402
import numba.extending           # noqa: E402
from numba.core import types     # noqa: E402

for _n, _t in (("float", float), ("int", int), ("object", object),
               ("bool", bool), ("complex", complex)):
    if _n not in np.__dict__:
        setattr(np, _n, _t)


def _ty(v):
    if v is None:
        return types.none
    if isinstance(v, str):
        return types.StringLiteral(v)
    if type(v) is int:
        return types.IntegerLiteral(v)
    return numba.typeof(v)


def _bind(fn, args, kwargs):
    sig = inspect.signature(fn)
    bound = sig.bind(*args, **kwargs)
    tys, vals = [], []
    for n, p in sig.parameters.items():
        if p.kind == p.VAR_POSITIONAL:
            va = bound.arguments.get(n, ())
            tys.extend(_ty(v) for v in va)
            vals.extend(va)
        elif n in bound.arguments:
            tys.append(_ty(bound.arguments[n]))
            vals.append(bound.arguments[n])
        else:
            tys.append(types.Omitted(p.default))
            vals.append(p.default)
    return tys, vals


def generated_jit(function=None, **opts):
    def deco(fn):
        @functools.wraps(fn)
        def wrapper(*args, **kwargs):
            tys, vals = _bind(fn, args, kwargs)
            return fn(*tys)(*vals)
        return wrapper
    return deco(function) if function is not None else deco


def overload(target, *a, **k):
    def deco(gen):
        def dispatch(*args, **kwargs):
            tys, vals = _bind(gen, args, kwargs)
            return gen(*tys)(*vals)
        key = "__dispatch_%s" % target.__name__
        target.__globals__[key] = dispatch
        ns = {}
        exec("def f(*a, **k):\n    return %s(*a, **k)" % key,
             target.__globals__, ns)
        target.__code__ = ns["f"].__code__
        target.__defaults__ = None
        return gen
    return deco


numba.generated_jit = generated_jit
numba.extending.overload = overload
numba.extending.register_jitable = lambda f=None, **k: f if f else (
    lambda g: g)
