"""Scenario backends: symbolic (SB) and concrete (CB)."""
import random
import numpy as np
from fractions import Fraction

SCENARIOS = {}      # property -> list of Scenario


class Scenario:
    def __init__(self, prop, name, fn, tier, bounds, kw):
        self.prop, self.name, self.fn = prop, name, fn
        self.tier, self.bounds, self.kw = tier, bounds, kw


def scenario(prop, name, tier="quick", bounds="", **kw):
    def deco(fn):
        SCENARIOS.setdefault(prop, []).append(
            Scenario(prop, name, fn, tier, bounds, kw))
        return fn
    return deco


class Invalid(Exception):
    """concrete candidate violates an assumption"""


class ClaimFailed(Exception):
    pass


# ---------------------------------------------------------------- symbolic
class SB:
    symbolic = True

    def __init__(self, path, tier):
        from . import core as _c
        _c.TOKENS.clear()
        from . import core, symnp, sarray
        self.core, self.np, self.sarray = core, symnp.symnp, sarray
        self.path = path
        self.tier = tier
        self.inputs = {}        # name -> ("r"/"i"/"b", lo, hi)
        self.claims = []        # (label, SBool 'holds')
        self.notes = {}
        sarray._JUNK[0] = 0
        core.TRIG_EXPAND[0] = False

    def expand_angles(self):
        """sines and cosines of sums and multiples by addition theorems"""
        self.core.TRIG_EXPAND[0] = True

    # inputs
    def real(self, name, lo=None, hi=None):
        self.inputs[name] = ("r", lo, hi)
        v, a = self.core.in_real(name, lo, hi)
        if (lo is not None or hi is not None) and a.id not in self.path.axd:
            self.path.assert_(self.core.z3.BoolVal(True), [a.id])
        return v

    def tok(self, v, frac=False):
        """digits that float() reads as the value v (non-negative)"""
        if not self.core.is_sym(v):
            return repr(v)
        for k, t in self.core.TOKENS.items():
            if t is v:
                return k
        k = str(7000001 + len(self.core.TOKENS)) + (".5" if frac else "")
        self.core.TOKENS[k] = v
        return k

    def int(self, name, lo, hi):
        self.inputs[name] = ("i", lo, hi)
        v, a = self.core.in_int(name, lo, hi)
        return int(v.__index__())

    def symint(self, name, lo, hi):
        self.inputs[name] = ("i", lo, hi)
        v, a = self.core.in_int(name, lo, hi)
        self.path.assert_(self.core.z3.BoolVal(True), [a.id])
        return v

    def bool(self, name):
        self.inputs[name] = ("b", None, None)
        return bool(self.core.in_bool(name))

    def symbool(self, name):
        self.inputs[name] = ("b", None, None)
        return self.core.in_bool(name)

    def reals(self, name, shape, lo=None, hi=None, dtype="float64"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = self.real(name + "".join("_%d" % i for i in ix), lo, hi)
        return self.sarray.as_sym(o, dtype)

    def cplxs(self, name, shape, lo=None, hi=None, dtype="complex128"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            s = "".join("_%d" % i for i in ix)
            o[ix] = self.core.SComplex(self.real(name + "r" + s, lo, hi),
                                       self.real(name + "i" + s, lo, hi))
        return self.sarray.as_sym(o, dtype)

    def cplx(self, name, lo=None, hi=None):
        return self.core.SComplex(self.real(name + "r", lo, hi),
                                  self.real(name + "i", lo, hi))

    def ints(self, name, shape, lo, hi, dtype="int64"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=dtype)
        for ix in np.ndindex(*shape):
            o[ix] = self.int(name + "".join("_%d" % i for i in ix), lo, hi)
        return o

    def bools(self, name, shape, dtype="bool"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=dtype)
        for ix in np.ndindex(*shape):
            o[ix] = self.bool(name + "".join("_%d" % i for i in ix))
        return o

    def symbools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = self.symbool(name + "".join("_%d" % i for i in ix))
        r = o.view(self.sarray.SymArray)
        r._ld = np.dtype(bool)
        return r

    def farr(self, values, dtype="float64"):
        """concrete numeric array in this world's representation"""
        v = values
        if isinstance(v, self.sarray.SymArray):
            return v.astype(dtype)
        return self.sarray.as_sym(np.array(v, dtype=object), dtype)

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def mod(self, name):
        from . import world
        return world.load(name)

    def dask(self, arr, chunks, name=None):
        import dask.array as da
        self._dn = getattr(self, "_dn", 0) + 1
        return mk_dask(arr, chunks, name or "in%d" % self._dn)

    def compute(self, x):
        return dask_compute(x)

    def assume(self, cond):
        c = self.core.SBool.of(cond)
        if c.const is True:
            return
        if c.const is False:
            raise self.core.PathAbort()
        r, _ = self.path.check(c.zb, c.atoms)
        if r == self.core.z3.unsat:
            raise self.core.PathAbort()
        self.path.assert_(c.zb, c.atoms)

    # claims
    def true(self, label, cond):
        c = cond
        if isinstance(c, np.ndarray):
            c = c.all()
        self.claims.append((label, "b", self.core.SBool.of(c)))

    def eq(self, label, got, want):
        """got == want elementwise (shape too)"""
        C = self.core
        if isinstance(got, tuple) or isinstance(want, tuple):
            self.true(label + ":len", len(got) == len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq("%s[%d]" % (label, i), g, w)
            return
        gs, ws = np.shape(got), np.shape(want)
        if gs != ws:
            self.claims.append((label + ":shape %r != %r" % (gs, ws), "b",
                                C.SFalse))
            return
        g = np.asarray(self.sarray.raw(got), dtype=object).reshape(-1) \
            if gs else [got]
        w = np.asarray(self.sarray.raw(want), dtype=object).reshape(-1) \
            if ws else [want]
        for i, (x, y) in enumerate(zip(g, w)):
            lab = label + (str(list(np.unravel_index(i, gs))) if gs else "")
            self._eq1(lab, x, y)

    def _eq1(self, lab, x, y):
        C = self.core
        if isinstance(x, (C.SBool, bool, np.bool_)) and \
                isinstance(y, (C.SBool, bool, np.bool_)):
            self.claims.append((lab, "b", C.SBool.of(x) == C.SBool.of(y)))
            return
        xc, yc = C.coerce_real(x), C.coerce_real(y)
        if xc is None or yc is None:
            self.claims.append((lab, "b", C.SBool.of(x is y or x == y)))
            return
        if isinstance(xc, C.SComplex) or isinstance(yc, C.SComplex):
            xc, yc = C.to_cplx(xc), C.to_cplx(yc)
            self._eq1(lab + ".re", xc.re, yc.re)
            self._eq1(lab + ".im", xc.im, yc.im)
            return
        if isinstance(xc, float) or isinstance(yc, float):
            same = isinstance(xc, float) and isinstance(yc, float) and \
                (xc == yc or (xc != xc and yc != yc))
            self.claims.append((lab, "b", C.SBool.of(same)))
            return
        if xc.cval is not None and yc.cval is not None and \
                xc.cval != yc.cval and abs(xc.cval - yc.cval) <= \
                max(abs(xc.cval), abs(yc.cval)) / 10 ** 9:
            # two constants, at least one of them rounded by numpy
            self.claims.append((lab, "b", C.STrue))
            return
        self.claims.append((lab, "e", (xc.r, yc.r)))

    def same(self, label, got, want):
        """structural equality of plain python values"""
        self.claims.append((label, "b",
                            self.core.SBool.of(bool(got == want))))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.true(label, True)
        except Exception as e:
            self.claims.append((label + ": raised %s instead" %
                                type(e).__name__, "b", self.core.SFalse))
        else:
            self.claims.append((label + ": no exception", "b",
                                self.core.SFalse))

    def copy(self, a):
        return a.copy()

    def all(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return self.core.And(*xs)

    def any(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return self.core.Or(*xs)

    def implies(self, a, b):
        return self.core.Implies(a, b)

    def known_true(self, cond):
        return bool(cond)

    @property
    def pi(self):
        return self.core.pi_value()

    def q(self, a, b=1):
        return self.core.SReal(self.core.rconst(Fraction(a, b)))


# ---------------------------------------------------------------- concrete
class CB:
    symbolic = False

    def __init__(self, values, tier, rtol=1e-6, atol=1e-8):
        self.np = np
        self.values = values
        self.tier = tier
        self.rtol, self.atol = rtol, atol
        self.failures = []
        self.inputs = {}
        self.nclaims = 0

    def real(self, name, lo=None, hi=None):
        self.inputs[name] = ("r", lo, hi)
        if name not in self.values:
            r = random.Random("%s" % name)
            a = -2.0 if lo is None else float(lo)
            b = 2.0 if hi is None else float(hi)
            self.values[name] = r.uniform(a, b)
        v = float(self.values[name])
        if lo is not None and v < float(lo) - 1e-12:
            raise Invalid(name)
        if hi is not None and v > float(hi) + 1e-12:
            raise Invalid(name)
        return v

    def int(self, name, lo, hi):
        self.inputs[name] = ("i", lo, hi)
        if name not in self.values:
            self.values[name] = random.Random(name).randint(lo, hi)
        v = int(self.values[name])
        if not lo <= v <= hi:
            raise Invalid(name)
        return v

    symint = int

    def tok(self, v, frac=False):
        return "%.12f" % v if frac else "%d" % v

    def bool(self, name):
        self.inputs[name] = ("b", None, None)
        if name not in self.values:
            self.values[name] = bool(random.Random(name).randint(0, 1))
        return bool(self.values[name])

    symbool = bool

    def _fill(self, shape, f, dtype):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=dtype)
        for ix in np.ndindex(*shape):
            o[ix] = f("".join("_%d" % i for i in ix))
        return o

    def reals(self, name, shape, lo=None, hi=None, dtype="float64"):
        return self._fill(shape, lambda s: self.real(name + s, lo, hi), dtype)

    def cplxs(self, name, shape, lo=None, hi=None, dtype="complex128"):
        return self._fill(shape, lambda s: complex(
            self.real(name + "r" + s, lo, hi),
            self.real(name + "i" + s, lo, hi)), dtype)

    def cplx(self, name, lo=None, hi=None):
        return complex(self.real(name + "r", lo, hi),
                       self.real(name + "i", lo, hi))

    def ints(self, name, shape, lo, hi, dtype="int64"):
        return self._fill(shape, lambda s: self.int(name + s, lo, hi), dtype)

    def bools(self, name, shape, dtype="bool"):
        return self._fill(shape, lambda s: self.bool(name + s), dtype)

    symbools = bools

    def farr(self, values, dtype="float64"):
        return np.array(values, dtype=dtype)

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def mod(self, name):
        from . import world
        return world.load(name)

    def dask(self, arr, chunks, name=None):
        self._dn = getattr(self, "_dn", 0) + 1
        return mk_dask(arr, chunks, name or "in%d" % self._dn)

    def compute(self, x):
        return dask_compute(x)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Invalid("assume")

    def true(self, label, cond):
        self.nclaims += 1
        if not bool(np.all(cond)):
            self.failures.append(label)

    def eq(self, label, got, want):
        if isinstance(got, tuple) or isinstance(want, tuple):
            self.true(label + ":len", len(got) == len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq("%s[%d]" % (label, i), g, w)
            return
        self.nclaims += 1
        if np.shape(got) != np.shape(want):
            self.failures.append("%s:shape %r != %r" % (
                label, np.shape(got), np.shape(want)))
            return
        if isinstance(got, (str, type(None))) or \
                isinstance(want, (str, type(None))):
            if not (got is want or got == want):
                self.failures.append("%s: got %r want %r" % (label, got,
                                                             want))
            return
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype.kind in "biu" and w.dtype.kind in "biu":
            ok = g == w
        elif g.dtype == object or w.dtype == object:
            ok = np.array([a is b or a == b for a, b in
                           zip(g.reshape(-1), w.reshape(-1))]).reshape(
                               g.shape)
        else:
            big = 0.0
            if w.size:
                aw = np.abs(np.asarray(w, dtype=complex))
                fin = aw[np.isfinite(aw)]
                big = float(fin.max()) if fin.size else 0.0
            with np.errstate(all="ignore"):
                ok = np.isclose(g, w, rtol=self.rtol,
                                atol=self.atol * max(1.0, big),
                                equal_nan=True)
        if not np.all(ok):
            i = np.unravel_index(int(np.argmin(ok)), np.shape(ok)) \
                if np.shape(ok) else ()
            self.failures.append("%s%s: got %r want %r" % (
                label, list(int(k) for k in i), g[i] if i else got,
                w[i] if i else want))

    def same(self, label, got, want):
        self.nclaims += 1
        if not got == want:
            self.failures.append("%s: got %r want %r" % (label, got, want))

    def expand_angles(self):
        pass

    def raises(self, label, exc, fn):
        self.nclaims += 1
        try:
            fn()
        except exc:
            pass
        except Exception as e:
            self.failures.append("%s: raised %s instead" % (
                label, type(e).__name__))
        else:
            self.failures.append(label + ": no exception")

    def copy(self, a):
        return a.copy()

    def all(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return all(bool(np.all(x)) for x in xs)

    def any(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return any(bool(np.all(x)) for x in xs)

    def implies(self, a, b):
        return (not a) or b

    def known_true(self, cond):
        return bool(cond)

    pi = np.pi

    def q(self, a, b=1):
        return a / b


# ------------------------------------------------------------------- dask
_TOKENS = [0]


def _token(x):
    _TOKENS[0] += 1
    return "vf-%d" % _TOKENS[0]


def register_tokens():
    """symbolic values are never merged by dask's content hashing"""
    from dask.base import normalize_token
    from . import core
    from .sarray import SymArray
    for c in (SymArray, core.SReal, core.SComplex, core.SBool):
        normalize_token.register(c, _token)


def mk_dask(arr, chunks, name):
    import dask.array as da
    if not _TOKENS[0]:
        _TOKENS[0] = 1
        register_tokens()
    from dask.array.core import normalize_chunks
    chunks = normalize_chunks(chunks, arr.shape)
    import itertools
    offs = [np.cumsum((0,) + c) for c in chunks]
    dsk = {}
    for ix in itertools.product(*[range(len(c)) for c in chunks]):
        sl = tuple(slice(int(o[i]), int(o[i + 1])) for o, i in zip(offs, ix))
        dsk[(name,) + ix] = arr[sl]
    return da.Array(dsk, name, chunks,
                    meta=np.empty((0,) * arr.ndim, dtype=arr.dtype))


def dask_compute(x):
    import dask
    import dask.array as da
    from dask.local import get_sync
    with dask.config.set(scheduler="sync"):
        if isinstance(x, da.Array):
            keys = x.__dask_keys__()
            blocks = get_sync(dict(x.__dask_graph__()), keys)
            return concat_blocks(blocks, x.ndim)
        return x.compute(scheduler="sync")


def concat_blocks(b, ndim):
    from .sarray import SymArray, wrap, raw, ldtype

    def rec(bb, d):
        if d == ndim:
            return bb
        parts = [rec(p, d + 1) for p in bb]
        if any(isinstance(p, SymArray) for p in parts):
            lds = [ldtype(p) for p in parts]
            r = np.concatenate([raw(p) for p in parts], axis=d) \
                if ndim else parts[0]
            return wrap(r, parts, lds[0])
        if len(parts) == 1:
            return parts[0]
        return np.concatenate(parts, axis=d)
    return rec(b, 0)
