"""Symbolic values, path exploration and SMT discharge.

Reals are rational functions num/den over *atoms* (inputs, pi, and
applications of sin, cos, exp, log, sqrt, ... to other values), kept in
polynomial normal form.  Path conditions and negated claims are handed to z3.
"""
import math
import time
import itertools
from fractions import Fraction
from ._z3 import z3


# --------------------------------------------------------------------------
# errors
# --------------------------------------------------------------------------
class EngineLimit(BaseException):
    """The code did something the encoding does not cover."""


class PathAbort(BaseException):
    """Current path is infeasible / cut by an assumption."""


class Deadline(BaseException):
    pass


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "kind", "name", "args", "zv", "isint", "lo", "hi",
                 "sq", "const")

    def __init__(self, id, kind, name, args=(), isint=False, lo=None, hi=None,
                 const=None):
        self.id, self.kind, self.name, self.args = id, kind, name, args
        self.isint, self.lo, self.hi = isint, lo, hi
        self.zv = None
        self.sq = None
        self.const = const

    def z(self):
        if self.zv is None:
            n = "%s#%d" % (self.name, self.id)
            self.zv = z3.ToReal(z3.Int(n)) if self.isint else z3.Real(n)
        return self.zv

    def __repr__(self):
        return self.name


ATOMS = []
_ATOM_KEY = {}
# callback: told when a *non input* atom is used first
KIND_INPUT, KIND_CONST = "in", "const"


def mk_atom(kind, key, name, **kw):
    k = (kind, key)
    a = _ATOM_KEY.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, name, **kw)
        ATOMS.append(a)
        _ATOM_KEY[k] = a
    return a


# --------------------------------------------------------------------------
# polynomials: dict  monomial -> Fraction ; monomial = tuple((id, exp), ...)
# --------------------------------------------------------------------------
ONE_M = ()


class Poly:
    __slots__ = ("t", "_key")

    def __init__(self, t):
        self.t = t
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def is_zero(self):
        return not self.t

    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and ONE_M in self.t:
            return self.t[ONE_M]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def add(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, c):
        if not c:
            return P0
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return P0
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c = c1 * c2
                m, needs = mono_mul(m1, m2)
                if needs:
                    p = reduce_mono(m).scale(c)
                    extra = p if extra is None else extra.add(p)
                else:
                    v = r.get(m)
                    if v is None:
                        r[m] = c
                    else:
                        v += c
                        if v:
                            r[m] = v
                        else:
                            del r[m]
            if len(r) > 60000:
                raise EngineLimit("polynomial too large")
        p = Poly(r)
        return p if extra is None else p.add(extra)

    def pow(self, n):
        r = P1
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def z(self):
        if not self.t:
            return z3.RealVal(0)
        terms = []
        for m, c in sorted(self.t.items()):
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(str(c)))
            for a, e in m:
                fs.extend([ATOMS[a].z()] * e)
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def num(self, env):
        s = 0.0
        for m, c in self.t.items():
            v = float(c)
            for a, e in m:
                v *= eval_atom(a, env) ** e
            s += v
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join([ATOMS[a].name + ("^%d" % e if e > 1 else "")
                          for a, e in m])
            out.append(("%s*%s" % (c, s)) if s else str(c))
        return " + ".join(out)


P0 = Poly({})
P1 = Poly({ONE_M: Fraction(1)})


def pconst(c):
    c = Fraction(c)
    return Poly({ONE_M: c}) if c else P0


def patom(a):
    return Poly({((a.id, 1),): Fraction(1)})


_MM = {}


def mono_mul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    k = (m1, m2)
    r = _MM.get(k)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    m = tuple(sorted(d.items()))
    needs = False
    nexp = 0
    for a, e in m:
        kd = ATOMS[a].kind
        if e >= 2 and kd in ("sqrt", "sin", "exp"):
            needs = True
        if kd == "exp":
            nexp += 1
    if nexp > 1:
        needs = True
    if len(_MM) > 2000000:
        _MM.clear()
    _MM[k] = (m, needs)
    return m, needs


def reduce_mono(m):
    """Rewrite sqrt(x)^2 -> x, sin^2 -> 1-cos^2, exp*exp -> exp(sum)."""
    rest = []
    res = P1
    expsum = None
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "sqrt" and e >= 2:
            res = res.mul(at.args[0].pow(e // 2))
            if e % 2:
                rest.append((a, 1))
        elif at.kind == "sin" and e >= 2:
            c = patom(mk_trig("cos", at.args[0]))
            res = res.mul(P1.sub(c.mul(c)).pow(e // 2))
            if e % 2:
                rest.append((a, 1))
        elif at.kind == "exp":
            t = at.args[0]
            t = rat_mul(t, Rat(pconst(e), P1)) if e > 1 else t
            expsum = t if expsum is None else rat_add(expsum, t)
        else:
            rest.append((a, e))
    p = Poly({tuple(rest): Fraction(1)})
    p = p.mul(res)
    if expsum is not None:
        r = exp_rat(expsum, raw=True)
        p = Poly(p.t)
        # multiply by a single fresh exp atom (no other exp present)
        ep = r.num
        out = {}
        for mm, c in p.t.items():
            for em, ec in ep.t.items():
                d = dict(mm)
                for a, e in em:
                    d[a] = d.get(a, 0) + e
                out_m = tuple(sorted(d.items()))
                out[out_m] = out.get(out_m, 0) + c * ec
        p = Poly({k: v for k, v in out.items() if v})
    return p


# --------------------------------------------------------------------------
# rational functions
# --------------------------------------------------------------------------
class Rat:
    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num, self.den = num, den

    def const(self):
        if self.den is P1 or self.den.const() == 1:
            return self.num.const()
        return None

    def key(self):
        return (self.num.key(), self.den.key())

    def z(self):
        if self.den is P1:
            return self.num.z()
        return self.num.z() / self.den.z()

    def evalf(self, env):
        d = self.den.num(env)
        return self.num.num(env) / d


def mk_rat(num, den):
    if num.is_zero():
        return R0
    if den is P1:
        return Rat(num, P1)
    c = den.const()
    if c is not None:
        return Rat(num.scale(1 / c), P1)
    # cancel common monomial content
    common = None
    for p in (num, den):
        for m in p.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items()
                          if a in d}
            if not common:
                break
        if not common:
            break
    if common:
        def div(p):
            out = {}
            for m, c in p.t.items():
                d = dict(m)
                for a, e in common.items():
                    d[a] -= e
                    if not d[a]:
                        del d[a]
                out[tuple(sorted(d.items()))] = c
            return Poly(out)
        num, den = div(num), div(den)
    c = den.const()
    if c is not None:
        return Rat(num.scale(1 / c), P1)
    # normalise den leading coefficient
    lead = den.t[max(den.t)]
    if lead != 1:
        num, den = num.scale(1 / lead), den.scale(1 / lead)
    if len(num.t) == len(den.t):
        if num.t.keys() == den.t.keys():
            l2 = num.t[max(den.t)]
            if den.scale(l2) == num:
                return Rat(pconst(l2), P1)
    return Rat(num, den)


R0 = Rat(P0, P1)
R1 = Rat(P1, P1)


def rconst(c):
    return Rat(pconst(c), P1)


def rat_add(a, b):
    if a.num.is_zero():
        return b
    if b.num.is_zero():
        return a
    if a.den is P1 and b.den is P1:
        return Rat(a.num.add(b.num), P1)
    if a.den == b.den:
        return mk_rat(a.num.add(b.num), a.den)
    return mk_rat(a.num.mul(b.den).add(b.num.mul(a.den)), a.den.mul(b.den))


def rat_neg(a):
    return Rat(a.num.neg(), a.den)


def rat_sub(a, b):
    return rat_add(a, rat_neg(b))


def rat_mul(a, b):
    if a.den is P1 and b.den is P1:
        return Rat(a.num.mul(b.num), P1)
    if a.den == b.num:
        return mk_rat(a.num, b.den)
    if b.den == a.num:
        return mk_rat(b.num, a.den)
    return mk_rat(a.num.mul(b.num), a.den.mul(b.den))


def rat_div_unchecked(a, b):
    if a.den == b.den:
        return mk_rat(a.num, b.num)
    return mk_rat(a.num.mul(b.den), a.den.mul(b.num))


# --------------------------------------------------------------------------
# transcendental constructors on Rat
# --------------------------------------------------------------------------
PI = mk_atom(KIND_CONST, "pi", "pi", const=math.pi)


def _split_sign(r):
    """(sign, r') with r' having positive leading numerator coefficient."""
    if r.num.is_zero():
        return 1, r
    lead = r.num.t[max(r.num.t)]
    if lead < 0:
        return -1, rat_neg(r)
    return 1, r


def _pi_multiple(r):
    """r = q*pi -> q, else None"""
    if r.den is P1 and len(r.num.t) == 1:
        m, c = next(iter(r.num.t.items()))
        if m == ((PI.id, 1),):
            return c
    if r.num.is_zero():
        return Fraction(0)
    return None


def mk_trig(fn, r):
    return mk_atom(fn, r.key(), "%s(%s)" % (fn, short(r)), args=(r,))


def short(r):
    s = repr(r.num)
    if r.den is not P1:
        s = "(%s)/(%s)" % (s, r.den)
    return s if len(s) < 60 else s[:57] + "..."


TRIG_EXPAND = [False]


def _coef_split(r):
    """split polynomial arg into list of (coefficient, monomial Rat)"""
    return [(c, Rat(Poly({m: Fraction(1)}), P1)) for m, c in
            sorted(r.num.t.items())]


def cos_sin_rat(r):
    """Return (cos r, sin r) as Rats."""
    if r.num.is_zero():
        return R1, R0
    q = _pi_multiple(r)
    if q is not None:
        q = q % 2
        tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1),
               Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if q in tab:
            c, s = tab[q]
            return rconst(c), rconst(s)
        if (q * 12).denominator == 1 and (q * 12).numerator % 2 == 0 or \
                (q * 4).denominator == 1:
            # multiples of 30 and 45 degrees
            def c0(x):
                x = min(x % 2, 2 - x % 2)
                if x > Fraction(1, 2):
                    return rat_neg(c0(1 - x))
                k = {Fraction(0): 4, Fraction(1, 6): 3, Fraction(1, 4): 2,
                     Fraction(1, 3): 1, Fraction(1, 2): 0}[x]
                return rat_mul(sqrt_rat(rconst(k)), rconst(Fraction(1, 2)))
            return c0(q), c0(q - Fraction(1, 2))
    # strip constant multiples of pi/2
    if r.den is P1:
        pm = ((PI.id, 1),)
        if pm in r.num.t and len(r.num.t) > 1:
            c = r.num.t[pm]
            if (c * 2).denominator == 1:
                t = dict(r.num.t)
                del t[pm]
                c0, s0 = cos_sin_rat(Rat(Poly(t), P1))
                k = int(c * 2) % 4
                for _ in range(k):
                    c0, s0 = rat_neg(s0), c0
                return c0, s0
    # inverse functions: cos(acos x) etc
    if r.den is P1 and len(r.num.t) == 1:
        (m, c), = r.num.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            at = ATOMS[m[0][0]]
            res = None
            if at.kind == "asin":
                x = at.args[0]
                res = (sqrt_rat(rat_sub(R1, rat_mul(x, x))), x)
            elif at.kind == "acos":
                x = at.args[0]
                res = (x, sqrt_rat(rat_sub(R1, rat_mul(x, x))))
            elif at.kind == "atan2":
                y, x = at.args
                h = sqrt_rat(rat_add(rat_mul(x, x), rat_mul(y, y)))
                res = (rat_div_unchecked(x, h), rat_div_unchecked(y, h))
            elif at.kind == "atan":
                x = at.args[0]
                h = sqrt_rat(rat_add(rat_mul(x, x), R1))
                res = (rat_div_unchecked(R1, h), rat_div_unchecked(x, h))
            if res is not None:
                return res if c == 1 else (res[0], rat_neg(res[1]))
    if r.den is P1 and (len(r.num.t) > 1 or (
            TRIG_EXPAND[0] and abs(next(iter(r.num.t.values()))) in
            (2, 3, 4))):
        expand = TRIG_EXPAND[0]
        if not expand:
            # always split off inverse trig terms with unit coefficient
            for m, c in r.num.t.items():
                if (len(m) == 1 and abs(c) == 1 and m[0][1] == 1 and
                        ATOMS[m[0][0]].kind in ("asin", "acos", "atan2",
                                                "atan")):
                    expand = True
        if expand:
            c0, s0 = R1, R0
            for c, mono in _coef_split(r):
                n = abs(c)
                if n.denominator == 1 and n <= 4:
                    b, k = mono, int(n)
                else:
                    b, k = rat_mul(mono, rconst(n)), 1
                cc, ss = cos_sin_rat(b)
                if c < 0:
                    ss = rat_neg(ss)
                for _ in range(k):
                    c0, s0 = (rat_sub(rat_mul(c0, cc), rat_mul(s0, ss)),
                              rat_add(rat_mul(s0, cc), rat_mul(c0, ss)))
            return c0, s0
    if r.den is not P1:
        # x/d + angle: split the inverse trig terms off
        seen = {a for m in r.num.t for a, e in m if e == 1 and
                ATOMS[a].kind in ("asin", "acos", "atan2", "atan")}
        for a in sorted(seen):
            A = Rat(patom(ATOMS[a]), P1)
            for sg in (1, -1):
                rest = rat_sub(r, A) if sg > 0 else rat_add(r, A)
                if any(a == x for m in rest.num.t for x, _ in m):
                    continue
                c0, s0 = cos_sin_rat(A)
                if sg < 0:
                    s0 = rat_neg(s0)
                c1, s1 = cos_sin_rat(rest)
                return (rat_sub(rat_mul(c0, c1), rat_mul(s0, s1)),
                        rat_add(rat_mul(s0, c1), rat_mul(c0, s1)))
    sg, rr = _split_sign(r)
    c = Rat(patom(mk_trig("cos", rr)), P1)
    s = Rat(patom(mk_trig("sin", rr)), P1)
    return c, (s if sg > 0 else rat_neg(s))


def _isqrt_split(n):
    """n>0 integer = s^2*k"""
    s, k = 1, n
    p = 2
    while p * p <= k and p < 2000:
        while k % (p * p) == 0:
            k //= p * p
            s *= p
        p += 1
    r = math.isqrt(k)
    if r * r == k:
        return s * r, 1
    return s, k


def sqrt_const(c):
    a, b = c.numerator, c.denominator
    s, k = _isqrt_split(a * b)
    if k == 1:
        return rconst(Fraction(s, b))
    at = mk_atom("sqrt", pconst(k).key(), "sqrt(%d)" % k,
                 args=(pconst(k),), const=math.sqrt(k))
    return Rat(patom(at).scale(Fraction(s, b)), P1)


def sqrt_rat(r):
    """sqrt; radicand assumed >= 0 (checked by the caller)."""
    c = r.const()
    if c is not None:
        if c < 0:
            raise EngineLimit("sqrt of negative constant")
        return sqrt_const(c) if c else R0
    num, den = r.num, r.den
    # perfect-square monomials with known non negative atoms
    if len(num.t) == 1 and den is P1:
        (m, cf), = num.t.items()
        if cf > 0 and m and all(e % 2 == 0 for _, e in m) and \
                all(nonneg_atom(a) for a, _ in m):
            root = Poly({tuple((a, e // 2) for a, e in m): Fraction(1)})
            return rat_mul(Rat(root, P1), sqrt_const(cf))
    if den is not P1:
        # sqrt(n/d) = sqrt(n*d)/|d|
        s = sqrt_rat(Rat(num.mul(den), P1))
        d = SReal(Rat(den, P1))
        dabs = abs(d)
        return rat_div_unchecked(s, dabs.r)
    # square detection: p == q*q for a two/three-term q is left to abs() users
    cont = _content(num)
    p = num.scale(1 / cont)
    at = mk_atom("sqrt", p.key(), "sqrt(%s)" % short(Rat(p, P1)), args=(p,))
    return rat_mul(Rat(patom(at), P1), sqrt_const(cont))


def _content(p):
    g_n, g_d = 0, 1
    for c in p.t.values():
        g_n = math.gcd(g_n, abs(c.numerator))
        g_d = g_d * c.denominator // math.gcd(g_d, c.denominator)
    return Fraction(g_n, g_d)


def nonneg_atom(a):
    at = ATOMS[a]
    return at.kind in ("sqrt", "exp") or at.id == PI.id or \
        (at.lo is not None and at.lo >= 0)


def exp_rat(r, raw=False):
    if r.num.is_zero():
        return R1
    if not raw and len(r.den.t) == 1:
        # pull out  k*log(x), integer k (denominator a monomial)
        (dm, dc), = r.den.t.items()
        dd = dict(dm)
        out, keep = R1, {}
        pulled = False
        for m, c in r.num.t.items():
            q = dict(m)
            ok = True
            for a, e in dd.items():
                q[a] = q.get(a, 0) - e
                ok = ok and q[a] >= 0
            q = [(a, e) for a, e in q.items() if e]
            k = c / dc
            if ok and len(q) == 1 and q[0][1] == 1 and \
                    ATOMS[q[0][0]].kind == "log" and k.denominator == 1:
                x = ATOMS[q[0][0]].args[0]
                k = int(k)
                b = x if k > 0 else rat_div_unchecked(R1, x)
                for _ in range(abs(k)):
                    out = rat_mul(out, b)
                pulled = True
            else:
                keep[m] = c
        if pulled:
            return rat_mul(out, exp_rat(mk_rat(Poly(keep), r.den)))
    at = mk_atom("exp", r.key(), "exp(%s)" % short(r), args=(r,))
    return Rat(patom(at), P1)


def log_rat(r):
    c = r.const()
    if c is not None and c == 1:
        return R0
    if r.den is not P1:
        return rat_sub(log_rat(Rat(r.num, P1)), log_rat(Rat(r.den, P1)))
    num = r.num
    if len(num.t) == 1:
        (m, cf), = num.t.items()
        if cf > 0 and (len(m) > 1 or (m and (cf != 1 or m[0][1] > 1))):
            # only split when every factor is known positive
            if all(pos_atom(a) for a, _ in m):
                tot = log_rat(rconst(cf))
                for a, e in m:
                    tot = rat_add(tot, rat_mul(
                        rconst(e), log_rat(Rat(patom(ATOMS[a]), P1))))
                return tot
        if cf == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "exp":
                return at.args[0]
    if c is not None and c > 0:
        # log(p/q) = sum of logs of small primes
        tot = R0
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            p = 2
            while p * p <= n and p < 1000:
                while n % p == 0:
                    tot = rat_add(tot, rat_mul(rconst(sg), _logint(p)))
                    n //= p
                p += 1
            if n > 1:
                tot = rat_add(tot, rat_mul(rconst(sg), _logint(n)))
        return tot
    at = mk_atom("log", r.key(), "log(%s)" % short(r), args=(r,))
    return Rat(patom(at), P1)


def _logint(n):
    if n == 5:      # log(10) stays one atom: log10 divides by a monomial
        return rat_sub(_logint(10), _logint(2))
    r = rconst(n)
    at = mk_atom("log", r.key(), "log(%d)" % n, args=(r,), const=math.log(n))
    return Rat(patom(at), P1)


def pos_atom(a):
    at = ATOMS[a]
    return at.kind in ("exp",) or at.id == PI.id or \
        (at.lo is not None and at.lo > 0)


def uf_rat(fn, *args):
    at = mk_atom(fn, tuple(a.key() for a in args),
                 "%s(%s)" % (fn, ",".join(short(a) for a in args)), args=args)
    return Rat(patom(at), P1)


NUMF = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log,
        "asin": math.asin, "acos": math.acos, "atan": math.atan,
        "atan2": math.atan2, "tan": math.tan, "sinh": math.sinh,
        "cosh": math.cosh, "tanh": math.tanh}


def eval_atom(a, env):
    at = ATOMS[a]
    if at.const is not None:
        return at.const
    if env is not None and a in env:
        return env[a]
    if at.kind == "sqrt":
        return math.sqrt(max(at.args[0].num(env), 0.0))
    if at.kind in NUMF:
        try:
            return NUMF[at.kind](*[x.evalf(env) for x in at.args])
        except (ValueError, ZeroDivisionError, OverflowError):
            return float("nan")
    raise KeyError(at.name)


def const_evaluable(poly_or_rat, seen=None):
    ps = (poly_or_rat.num, poly_or_rat.den) if isinstance(poly_or_rat, Rat) \
        else (poly_or_rat,)
    for p in ps:
        for a in p.atoms():
            at = ATOMS[a]
            if at.const is not None:
                continue
            if at.kind == "sqrt" or at.kind in NUMF:
                if all(const_evaluable(x) for x in at.args):
                    continue
            return False
    return True


# --------------------------------------------------------------------------
# path exploration
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.fork_queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.unsat = 0
        self.sat = 0


STATS = Stats()


def atom_axioms(ids):
    """Axioms for all atoms in ids, transitively."""
    out = []
    seen = set()
    todo = list(ids)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        at = ATOMS[i]
        v = at.z()
        if at.lo is not None:
            out.append(v >= z3.RealVal(str(Fraction(at.lo))))
        if at.hi is not None:
            out.append(v <= z3.RealVal(str(Fraction(at.hi))))
        if at.const is not None and at.kind != "sqrt":
            f = Fraction(at.const)
            eps = Fraction(1, 10**12)
            out.append(v > z3.RealVal(str(f - abs(f) * eps)))
            out.append(v < z3.RealVal(str(f + abs(f) * eps)))
        if at.kind == "sqrt":
            p = at.args[0]
            todo.extend(p.atoms())
            out.append(v >= 0)
            out.append(v * v == p.z())
        elif at.kind in ("sin", "cos"):
            r = at.args[0]
            c, s = mk_trig("cos", r), mk_trig("sin", r)
            todo.extend([c.id, s.id])
            if at.kind == "cos" or c.id not in ids:
                out.append(c.z() * c.z() + s.z() * s.z() == 1)
                out.append(z3.And(c.z() <= 1, c.z() >= -1))
                out.append(z3.And(s.z() <= 1, s.z() >= -1))
        elif at.kind == "exp":
            out.append(v > 0)
    return out, seen


_LIN = {}


def linearise(e):
    """z3 term with every nonlinear product or quotient as a fresh unknown"""
    i = e.get_id()
    if i in _LIN:
        return _LIN[i][1]
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_app(e) and e.num_args():
        ch = e.children()
        if k == z3.Z3_OP_MUL:
            nc = [c for c in ch if not z3.is_rational_value(c)]
            if len(nc) > 1:
                co = [c for c in ch if z3.is_rational_value(c)]
                p = sorted(nc, key=lambda c: c.get_id())
                v = z3.Real("lin!" + "*".join(str(c.get_id()) for c in p))
                _LIN[v.get_id()] = (v, v, p)
                r = z3.Product(*(co + [v])) if co else v
                _LIN[i] = (e, r, p)
                return r
        elif (k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1])) or \
                k == z3.Z3_OP_POWER:
            r = z3.Real("lin!%d" % i)
            _LIN[i] = (e, r, None)
            return r
        new = [linearise(c) for c in ch]
        if any(a.get_id() != b.get_id() for a, b in zip(ch, new)):
            if k == z3.Z3_OP_ADD:
                r = z3.Sum(*new)
            elif k == z3.Z3_OP_MUL:
                r = z3.Product(*new)
            else:
                r = e.decl()(*new)
            _LIN[i] = (e, r, None)
            return r
    _LIN[i] = (e, e, None)
    return e


class Path:
    """One execution path: trail of decisions + z3 solver."""

    def __init__(self, ex, trail):
        self.ex = ex
        self.trail = trail          # list of [kind, payload, val, other]
        self.pos = 0
        self.pc = []                # z3 constraints
        self.pc_atoms = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.fork_timeout_ms)
        self.axd = set()
        self.claims = []
        self.decisions_desc = []
        self.lin = None
        self.lin_model = None

    # -- relaxation: every nonlinear term becomes an unknown of its own.
    # Infeasible there means infeasible; used once nlsat gave up.
    def _lin(self):
        if self.lin is None:
            self.lin = z3.Solver()
            self.lin.set("timeout", 2000)
            self.lin_n = 0
        while self.lin_n < len(self.pc):
            self.lin.add(linearise(self.pc[self.lin_n]))
            self.lin_n += 1
        return self.lin

    def lin_check(self, zb, ax):
        s = self._lin()
        s.push()
        for a in ax:
            s.add(linearise(a))
        if zb is not None:
            s.add(linearise(zb))
        r = s.check()
        model = s.model() if r == z3.sat else None
        s.pop()
        STATS.fork_queries += 1
        return r, model

    # -- constraint management
    def assert_(self, zb, atoms):
        self.pc.append(zb)
        new = set(atoms) - self.axd
        if new:
            ax, seen = atom_axioms(new)
            self.axd |= seen
            for a in ax:
                self.solver.add(a)
            self.pc.extend(ax)
        self.pc_atoms |= set(atoms)
        self.solver.add(zb)

    def check(self, zb=None, atoms=()):
        new = set(atoms) - self.axd
        self.ex.tick()
        STATS.fork_queries += 1
        t = time.time()
        ax = atom_axioms(new)[0] if new else []
        self.lin_model = None
        if self.ex.hard:
            r, self.lin_model = self.lin_check(zb, ax)
            if r == z3.unsat:
                STATS.solver_s += time.time() - t
                return r, None
        if new or zb is not None:
            self.solver.push()
            if new:
                self.solver.add(*ax) if ax else None
            if zb is not None:
                self.solver.add(zb)
            r = self.solver.check()
            model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            model = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            STATS.unknown += 1
            if not self.ex.hard:
                self.ex.hard = True
                r2, self.lin_model = self.lin_check(zb, ax)
                if r2 == z3.unsat:
                    r = r2
        STATS.solver_s += time.time() - t
        return r, model

    # -- decisions
    def branch(self, zb, atoms):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            val = e[2]
        else:
            if len(self.trail) > self.ex.max_depth:
                raise EngineLimit("path too deep")
            rt, _ = self.check(zb, atoms)
            if rt == z3.unsat:
                val, other = False, False
            else:
                rf, _ = self.check(z3.Not(zb), atoms)
                val, other = True, rf != z3.unsat
            self.trail.append(["b", None, val, other])
            self.pos += 1
        self.assert_(zb if val else z3.Not(zb), atoms)
        return val

    def choose_int(self, mk, atoms, getval):
        """mk(k)-> z3 bool 'value is k'; getval(model)->int candidate."""
        while True:
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                self.pos += 1
                k, val = e[1], e[2]
            else:
                if len(self.trail) > self.ex.max_depth:
                    raise EngineLimit("path too deep")
                r, model = self.check(None, atoms)
                if r == z3.unsat:
                    raise PathAbort()
                if model is not None:
                    k = getval(model)
                elif self.lin_model is not None:
                    k = getval(self.lin_model, linearise)
                else:
                    raise EngineLimit("solver cannot concretise an integer")
                zb = mk(k)
                rf, _ = self.check(z3.Not(zb), atoms)
                val = True
                self.trail.append(["i", k, True, rf != z3.unsat])
                self.pos += 1
            zb = mk(k)
            self.assert_(zb if val else z3.Not(zb), atoms)
            if val:
                return k


TOKENS = {}      # digit strings standing for symbolic numbers


class Explorer:
    def __init__(self, fn, deadline=None, max_paths=20000, max_depth=4000,
                 fork_timeout_ms=8000, query_timeout_ms=60000):
        self.fn = fn
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.fork_timeout_ms = fork_timeout_ms
        self.query_timeout_ms = query_timeout_ms
        self.complete = True
        self.npaths = 0
        self.hard = False

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()

    def run(self, on_path):
        """on_path(path, outcome) -> truthy to stop"""
        trail = []
        while True:
            p = Path(self, trail)
            _CUR[0] = p
            try:
                outcome = self.fn(p)
                ok = True
            except PathAbort:
                ok = False
                outcome = None
            except Deadline:
                self.complete = False
                _CUR[0] = None
                return
            finally:
                pass
            if ok:
                self.npaths += 1
                STATS.paths += 1
                try:
                    stop = on_path(p, outcome)
                except Deadline:
                    self.complete = False
                    _CUR[0] = None
                    return
                if stop:
                    _CUR[0] = None
                    return
            trail = p.trail
            while trail and not trail[-1][3]:
                trail.pop()
            if not trail:
                _CUR[0] = None
                return
            e = trail[-1]
            e[2] = not e[2]
            e[3] = False
            if self.npaths >= self.max_paths:
                self.complete = False
                _CUR[0] = None
                return


_CUR = [None]


def cur():
    p = _CUR[0]
    if p is None:
        raise EngineLimit("no path active")
    return p


# --------------------------------------------------------------------------
# symbolic booleans
# --------------------------------------------------------------------------
class SBool:
    __slots__ = ("zb", "atoms", "const")
    __hash__ = None

    def __init__(self, zb, atoms=(), const=None):
        self.zb, self.atoms, self.const = zb, frozenset(atoms), const

    @staticmethod
    def of(v):
        if isinstance(v, SBool):
            return v
        b = bool(v)
        return SBool(z3.BoolVal(b), (), b)

    def __bool__(self):
        if self.const is not None:
            return self.const
        return cur().branch(self.zb, self.atoms)

    def _bin(self, o, f, fc):
        if not isinstance(o, (SBool, bool, int)) and not hasattr(o, "dtype"):
            return NotImplemented
        if hasattr(o, "ndim") and getattr(o, "ndim", 0) > 0:
            return NotImplemented
        o = SBool.of(o)
        if self.const is not None and o.const is not None:
            b = fc(self.const, o.const)
            return SBool(z3.BoolVal(b), (), b)
        return SBool(f(self.zb, o.zb), self.atoms | o.atoms)

    def __and__(self, o):
        if self.const is False:
            return SFalse
        if self.const is True and isinstance(o, (SBool, bool)):
            return SBool.of(o)
        return self._bin(o, z3.And, lambda a, b: a and b)

    __rand__ = __and__

    def __or__(self, o):
        if self.const is True:
            return STrue
        if self.const is False and isinstance(o, (SBool, bool)):
            return SBool.of(o)
        return self._bin(o, z3.Or, lambda a, b: a or b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor, lambda a, b: a != b)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (int, SInt)) and not isinstance(o, bool):
            return SInt.of(int(self)) == o
        return self._bin(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        if isinstance(o, (int, SInt)) and not isinstance(o, bool):
            return SInt.of(int(self)) != o
        return self._bin(o, z3.Xor, lambda a, b: a != b)

    def __invert__(self):
        if self.const is not None:
            return SFalse if self.const else STrue
        return SBool(z3.Not(self.zb), self.atoms)

    logical_not = __invert__

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __add__(self, o):
        return int(self) + (int(o) if isinstance(o, SBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * (int(o) if isinstance(o, SBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(self) - (int(o) if isinstance(o, SBool) else o)

    def __rsub__(self, o):
        return o - int(self)

    def __lt__(self, o):
        return int(self) < o

    def __gt__(self, o):
        return int(self) > o

    def __le__(self, o):
        return int(self) <= o

    def __ge__(self, o):
        return int(self) >= o

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(bool)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SBool(%s)" % self.zb

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarray
        return sarray.apply_ufunc(ufunc, method, inputs, kw)


STrue = SBool(z3.BoolVal(True), (), True)
SFalse = SBool(z3.BoolVal(False), (), False)


def Implies(a, b):
    return (~SBool.of(a)) | SBool.of(b)


def And(*xs):
    r = STrue
    for x in xs:
        r = r & SBool.of(x)
    return r


def Or(*xs):
    r = SFalse
    for x in xs:
        r = r | SBool.of(x)
    return r


# --------------------------------------------------------------------------
# symbolic reals
# --------------------------------------------------------------------------
def frac_of_float(x):
    f = Fraction(x)
    if f.denominator == 1:
        return f
    g = f.limit_denominator(10**6)
    if float(g) == x:
        return g
    # decimal literals such as 1e-20 or 0.1234567891
    g = Fraction(repr(float(x)))
    if float(g) == x:
        return g
    return f


def _is_np_scalar(o):
    return hasattr(o, "dtype") and getattr(o, "ndim", None) == 0


def coerce_real(o):
    """-> SReal/SInt, non finite float, SComplex, or None"""
    if isinstance(o, SReal):
        return o
    if isinstance(o, (SComplex,)):
        return o
    if isinstance(o, SBool):
        return SInt.of(int(o))
    if isinstance(o, bool):
        return SInt.of(int(o))
    if isinstance(o, int):
        return SInt.of(o)
    if isinstance(o, Fraction):
        return SReal(rconst(o))
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return float(o)
        return SReal(rconst(frac_of_float(float(o))))
    if isinstance(o, complex):
        return SComplex(mk_real(o.real), mk_real(o.imag))
    if _is_np_scalar(o):
        it = o.item()
        if it is o:
            return None
        if o.dtype.itemsize == 4 and o.dtype.kind == "f":
            it = float(str(o))
        return coerce_real(it)
    return None


def mk_real(o):
    """Force to SReal or non-finite float."""
    r = coerce_real(o)
    if r is None or isinstance(r, SComplex):
        raise EngineLimit("cannot treat %r as a real" % type(o))
    return r


NAN = float("nan")
INF = float("inf")


class SReal:
    __slots__ = ("r",)
    __hash__ = None
    isint = False

    def __init__(self, r):
        self.r = r

    # -- construction helpers
    @staticmethod
    def of(v):
        return mk_real(v)

    @property
    def cval(self):
        return self.r.const()

    def _wrap(self, r, o=None):
        if self.isint and (o is None or o.isint):
            return SInt(r)
        return SReal(r)

    # -- arithmetic
    def _arith(self, o, op, rop=False):
        if getattr(o, "ndim", 0):
            return NotImplemented
        c = coerce_real(o)
        if c is None:
            return NotImplemented
        if isinstance(c, SComplex):
            a, b = SComplex(self, ZERO), c
            return op(b, a) if rop else op(a, b)
        if isinstance(c, float):
            return nonfinite(op, c, self) if rop else nonfinite(op, self, c)
        return op(c, self) if rop else op(self, c)

    def __add__(self, o):
        return self._arith(o, op_add)

    def __radd__(self, o):
        return self._arith(o, op_add, True)

    def __sub__(self, o):
        return self._arith(o, op_sub)

    def __rsub__(self, o):
        return self._arith(o, op_sub, True)

    def __mul__(self, o):
        return self._arith(o, op_mul)

    def __rmul__(self, o):
        return self._arith(o, op_mul, True)

    def __truediv__(self, o):
        return self._arith(o, op_div)

    def __rtruediv__(self, o):
        return self._arith(o, op_div, True)

    def __floordiv__(self, o):
        return self._arith(o, op_floordiv)

    def __rfloordiv__(self, o):
        return self._arith(o, op_floordiv, True)

    def __mod__(self, o):
        return self._arith(o, op_mod)

    def __rmod__(self, o):
        return self._arith(o, op_mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return self._arith(o, op_pow)

    def __rpow__(self, o):
        return self._arith(o, op_pow, True)

    def __neg__(self):
        return self._wrap(rat_neg(self.r))

    def __pos__(self):
        return self

    def __abs__(self):
        c = self.cval
        if c is not None:
            return self if c >= 0 else -self
        if known_nonneg(self.r):
            return self
        return self if bool(self >= 0) else -self

    # -- comparisons
    def _cmp(self, o, op):
        if getattr(o, "ndim", 0):
            return NotImplemented
        c = coerce_real(o)
        if c is None:
            return NotImplemented
        if isinstance(c, SComplex):
            if op in ("==", "!="):
                e = (c == self)
                return e if op == "==" else ~SBool.of(e)
            return NotImplemented
        if isinstance(c, float):
            x = 0.0
            b = {"<": x < c, "<=": x <= c, ">": x > c, ">=": x >= c,
                 "==": False, "!=": True}[op]
            return STrue if b else SFalse
        return compare(self.r, c.r, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return SFalse if r is NotImplemented and not getattr(
            o, "ndim", 0) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return STrue if r is NotImplemented and not getattr(
            o, "ndim", 0) else r

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        c = self.cval
        if c is not None:
            return float(c)
        if const_evaluable(self.r):
            return float(self.r.evalf(None))
        raise EngineLimit("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        t = self if self.isint else trunc(self)
        return t.__index__() if isinstance(t, SReal) else int(t)

    def __index__(self):
        c = self.cval
        if self.isint and c is not None:
            return int(c)
        if self.isint:
            return concretise(self)
        raise TypeError("'SReal' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        if n in (None, 0):
            k = rint(self)
            return k if n is None else SReal(k.r)
        raise EngineLimit("round(x, n)")

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    # -- numpy object-loop protocol
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def item(self):
        return self

    def astype(self, dt):
        from . import sarray
        return sarray.coerce_scalar(self, dt)

    def is_integer(self):
        c = self.cval
        if c is not None:
            return c.denominator == 1
        return False

    def copy(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype("int64" if self.isint else "float64")

    @property
    def T(self):
        return self

    def squeeze(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, short(self.r))

    def __format__(self, spec):
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarray
        return sarray.apply_ufunc(ufunc, method, inputs, kw)


class SInt(SReal):
    __slots__ = ()
    isint = True

    @staticmethod
    def of(v):
        return SInt(rconst(v))

    def __hash__(self):
        return hash(self.__index__())

    def __and__(self, o):
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o)

    def __lshift__(self, o):
        return int(self) << int(o)

    def __rshift__(self, o):
        return int(self) >> int(o)

    def __invert__(self):
        return -self - 1


ZERO = SReal(R0)
ONE = SReal(R1)


def nonfinite(op, a, b):
    """arithmetic with a non-finite float operand."""
    fa = a if isinstance(a, float) else None
    fb = b if isinstance(b, float) else None
    if (fa is not None and fa != fa) or (fb is not None and fb != fb):
        return NAN
    if op is op_add:
        return fa if fa is not None else fb
    if op is op_sub:
        return fa if fa is not None else -fb
    if op is op_mul:
        inf, x = (fa, b) if fa is not None else (fb, a)
        if bool(x > 0):
            return inf
        if bool(x == 0):
            return NAN
        return -inf
    if op is op_div:
        if fb is not None:
            return SReal(R0)
        return fa if bool(b >= 0) else -fa
    raise EngineLimit("non-finite arithmetic")


def op_add(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = to_cplx(a), to_cplx(b)
        return SComplex(a.re + b.re, a.im + b.im)
    r = rat_add(a.r, b.r)
    return SInt(r) if a.isint and b.isint else SReal(r)


def op_sub(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = to_cplx(a), to_cplx(b)
        return SComplex(a.re - b.re, a.im - b.im)
    r = rat_sub(a.r, b.r)
    return SInt(r) if a.isint and b.isint else SReal(r)


def op_mul(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = to_cplx(a), to_cplx(b)
        return SComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    r = rat_mul(a.r, b.r)
    return SInt(r) if a.isint and b.isint else SReal(r)


def op_div(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = to_cplx(a), to_cplx(b)
        if is_zero_const(b.im):
            return SComplex(a.re / b.re, a.im / b.re)
        d = b.re * b.re + b.im * b.im
        n = a * SComplex(b.re, -b.im)
        return SComplex(n.re / d, n.im / d)
    c = b.cval
    if c is not None and c != 0:
        return SReal(rat_mul(a.r, rconst(1 / c)))
    if c == 0 or not proven_nonzero(b.r):
        if bool(b == 0):
            if bool(a == 0):
                return NAN
            return INF if bool(a > 0) else -INF
    return SReal(rat_div_unchecked(a.r, b.r))


def is_zero_const(x):
    return isinstance(x, SReal) and x.r.num.is_zero()


def _poly_pos_terms(p):
    """every monomial non-negative & at least one positive -> True"""
    anypos = False
    for m, c in p.t.items():
        if c < 0:
            return False
        if not all(e % 2 == 0 or nonneg_atom(a) for a, e in m):
            return False
        if all(pos_atom(a) for a, e in m):
            anypos = True
    return anypos


def known_nonneg(r):
    def nn(p):
        return all(c >= 0 and all(e % 2 == 0 or nonneg_atom(a)
                                  for a, e in m)
                   for m, c in p.t.items())
    return nn(r.num) and (r.den is P1 or nn(r.den))


def proven_nonzero(r):
    return _poly_pos_terms(r.num) or _poly_pos_terms(r.num.neg())


def op_floordiv(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        raise TypeError("complex floor division")
    q = op_div(a, b)
    if isinstance(q, float):
        if a.isint and b.isint:
            raise ZeroDivisionError("integer division by zero")
        return q
    k = floor(q)
    return k if a.isint and b.isint else SReal(k.r)


def op_mod(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        raise TypeError("complex mod")
    k = op_floordiv(a, b)
    if isinstance(k, float):
        return NAN
    r = a - k * b
    return r


def op_pow(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        if not isinstance(b, SComplex) and b.cval is not None and \
                b.cval.denominator == 1:
            n = int(b.cval)
            base = to_cplx(a)
            r = SComplex(ONE, ZERO)
            for _ in range(abs(n)):
                r = r * base
            return r if n >= 0 else SComplex(ONE, ZERO) / r
        raise EngineLimit("complex power")
    c = b.cval
    if c is None and b.isint:
        c = Fraction(concretise(b))
    if c is not None:
        if c.denominator == 1:
            n = int(c)
            if n >= 0:
                r = Rat(a.r.num.pow(n), a.r.den.pow(n) if a.r.den is not P1
                        else P1)
                return SInt(r) if a.isint and b.isint else SReal(r)
            return op_div(ONE, op_pow(SReal(a.r), SInt.of(-n)))
        if c.denominator == 2 and abs(c) < 4:
            s = sqrt(a)
            n = int(c * 2)
            return op_pow(s, SInt.of(n)) if not isinstance(s, float) else s
    # general a**b, a > 0
    ca = a.cval
    if (ca is not None and ca <= 0) or (ca is None and not proven_pos(a.r)):
        if not bool(a > 0):
            if bool(a == 0):
                return ZERO if bool(b > 0) else (
                    ONE if bool(b == 0) else INF)
            return NAN
    return SReal(exp_rat(rat_mul(b.r, log_rat(a.r))))


def proven_pos(r):
    return _poly_pos_terms(r.num) and (r.den is P1 or _poly_pos_terms(r.den))


def compare(a, b, op):
    d = rat_sub(a, b)
    c = d.const()
    if c is None and not d.num.is_zero() and const_evaluable(d):
        v = d.evalf(None)
        if abs(v) > 1e-9:
            c = Fraction(v)
        elif op in ("<", ">", "!=", "=="):
            c = Fraction(0) if abs(v) < 1e-13 else Fraction(v)
        else:
            c = Fraction(0) if abs(v) < 1e-13 else Fraction(v)
    if c is not None:
        b = {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
             "==": c == 0, "!=": c != 0}[op]
        return STrue if b else SFalse
    num, den = d.num, d.den
    if op in ("==", "!="):
        p = num
    elif den is P1:
        p = num
    elif _poly_pos_terms(den):
        p = num
    else:
        p = num.mul(den)
    # quick sign facts
    if _poly_pos_terms(p):
        return {"<": SFalse, "<=": SFalse, ">": STrue, ">=": STrue,
                "==": SFalse, "!=": STrue}[op]
    if _poly_pos_terms(p.neg()):
        return {"<": STrue, "<=": STrue, ">": SFalse, ">=": SFalse,
                "==": SFalse, "!=": STrue}[op]
    # normalise: move negative terms to the rhs
    pos = Poly({m: c for m, c in p.t.items() if c > 0})
    neg = Poly({m: -c for m, c in p.t.items() if c < 0})
    x, y = pos.z(), neg.z()
    zb = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y,
          ">=": lambda: x >= y, "==": lambda: x == y,
          "!=": lambda: x != y}[op]()
    return SBool(zb, p.atoms())


def concretise(x):
    c = x.cval
    if c is not None:
        return int(c)
    path = cur()
    z = x.r.z()
    atoms = x.r.num.atoms() | x.r.den.atoms()

    def getval(model, tr=lambda e: e):
        v = model.eval(tr(z), model_completion=True)
        return math.floor(frac_of_z3(v))
    return path.choose_int(lambda k: z == k, atoms, getval)


def frac_of_z3(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineLimit("no numeral for %s" % v)


def _round_like(x, rel, cand):
    x = mk_real(x)
    if isinstance(x, float):
        return x
    if x.isint:
        return x
    c = x.cval
    if c is not None:
        return SInt.of(cand(c))
    if const_evaluable(x.r):
        return SInt.of(cand(Fraction(x.r.evalf(None))))
    path = cur()
    atoms = x.r.num.atoms() | x.r.den.atoms()
    n = x.r.num.z()
    d = None if x.r.den is P1 else x.r.den.z()
    sg = 1
    if d is not None and not _poly_pos_terms(x.r.den):
        sg = 1 if bool(SReal(Rat(x.r.den, P1)) > 0) else -1

    def getval(model, tr=lambda e: e):
        v = frac_of_z3(model.eval(tr(n), model_completion=True))
        if d is not None:
            w = frac_of_z3(model.eval(tr(d), model_completion=True))
            v = v / w if w else Fraction(0)
        return cand(v)

    class Z:
        """comparisons of the (possibly fractional) value with constants"""
        def _c(self, k, op):
            k = k if z3.is_expr(k) else z3.RealVal(str(Fraction(k)))
            if d is None:
                return op(n, k)
            return op(n, k * d) if sg > 0 else op(k * d, n)

        def __ge__(self, k):
            return self._c(k, lambda p, q: p >= q)

        def __gt__(self, k):
            return self._c(k, lambda p, q: p > q)

        def __le__(self, k):
            return self._c(k, lambda p, q: p <= q)

        def __lt__(self, k):
            return self._c(k, lambda p, q: p < q)
    return SInt.of(path.choose_int(lambda k: rel(Z(), k), atoms, getval))


def floor(x):
    return _round_like(x, lambda z, k: z3.And(z >= k, z < k + 1),
                       lambda c: math.floor(c))


def ceil(x):
    return _round_like(x, lambda z, k: z3.And(z > k - 1, z <= k),
                       lambda c: math.ceil(c))


def trunc(x):
    def rel(z, k):
        if k > 0:
            return z3.And(z >= k, z < k + 1)
        if k < 0:
            return z3.And(z > k - 1, z <= k)
        return z3.And(z > -1, z < 1)
    return _round_like(x, rel, lambda c: math.trunc(c))


def rint(x):
    h = Fraction(1, 2)

    def rel(z, k):
        if k % 2 == 0:
            return z3.And(z >= k - h, z <= k + h)
        return z3.And(z > k - h, z < k + h)
    return _round_like(x, rel, lambda c: round(c))


# --------------------------------------------------------------------------
# functions on scalars (real or complex)
# --------------------------------------------------------------------------
def _lift(x):
    c = coerce_real(x)
    if c is None:
        raise EngineLimit("unsupported scalar %r" % type(x))
    return c


def sqrt(x):
    x = _lift(x)
    if isinstance(x, SComplex):
        raise EngineLimit("complex sqrt")
    if isinstance(x, float):
        return math.sqrt(x) if x > 0 or x != x else NAN
    c = x.cval
    if c is not None and c < 0:
        return NAN
    if c is None and not known_nonneg(x.r):
        # perfect square of a simple polynomial?
        if bool(x < 0):
            return NAN
    return SReal(sqrt_rat(x.r))


def exp(x):
    x = _lift(x)
    if isinstance(x, SComplex):
        m = exp(x.re)
        if isinstance(m, float) or isinstance(x.im, float):
            return SComplex(m * cos(x.im), m * sin(x.im))
        c, s = cos_sin_rat(x.im.r)
        return SComplex(m * SReal(c), m * SReal(s))
    if isinstance(x, float):
        return x if x != x or x > 0 else ZERO
    return SReal(exp_rat(x.r))


def log(x):
    x = _lift(x)
    if isinstance(x, SComplex):
        raise EngineLimit("complex log")
    if isinstance(x, float):
        return x
    c = x.cval
    if (c is not None and c <= 0) or (c is None and not proven_pos(x.r)):
        if not bool(x > 0):
            return -INF if bool(x == 0) else NAN
    return SReal(log_rat(x.r))


LOG10 = _logint(10)
LOG2 = _logint(2)

def log10(x):
    return log(x) / SReal(LOG10)


def log2(x):
    return log(x) / SReal(LOG2)


def sin(x):
    x = _lift(x)
    if isinstance(x, float):
        return NAN
    if isinstance(x, SComplex):
        raise EngineLimit("complex sin")
    return SReal(cos_sin_rat(x.r)[1])


def cos(x):
    x = _lift(x)
    if isinstance(x, float):
        return NAN
    if isinstance(x, SComplex):
        raise EngineLimit("complex cos")
    return SReal(cos_sin_rat(x.r)[0])


def tan(x):
    return sin(x) / cos(x)


def _uf1(fn):
    def f(x):
        x = _lift(x)
        if isinstance(x, float):
            return NAN
        if isinstance(x, SComplex):
            raise EngineLimit("complex " + fn)
        if x.r.num.is_zero() and fn in ("asin", "atan", "sinh", "tanh"):
            return ZERO
        if fn in ("asin", "atan", "sinh", "tanh"):
            sg, rr = _split_sign(x.r)
            v = SReal(uf_rat(fn, rr))
            return v if sg > 0 else -v
        return SReal(uf_rat(fn, x.r))
    f.__name__ = fn
    return f


asin = _uf1("asin")
acos = _uf1("acos")
atan = _uf1("atan")
sinh = _uf1("sinh")
cosh = _uf1("cosh")
tanh = _uf1("tanh")


def atan2(y, x):
    y, x = _lift(y), _lift(x)
    if y.cval is not None and x.cval is not None:
        if y.cval == 0:
            return ZERO if x.cval >= 0 else SReal(Rat(patom(PI), P1))
    return SReal(uf_rat("atan2", y.r, x.r))


def hypot(x, y):
    return sqrt(x * x + y * y)


def sign(x):
    x = _lift(x)
    if isinstance(x, float):
        return math.copysign(1.0, x) if x == x else NAN
    if isinstance(x, SComplex):
        raise EngineLimit("complex sign")
    if bool(x > 0):
        return SInt.of(1) if x.isint else ONE
    if bool(x == 0):
        return SInt.of(0) if x.isint else ZERO
    return SInt.of(-1) if x.isint else -ONE


def sinc(x):
    x = _lift(x)
    if bool(x == 0):
        return ONE
    px = x * SReal(Rat(patom(PI), P1))
    return sin(px) / px


def maximum(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a >= b) else b


def minimum(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a <= b) else b


# --------------------------------------------------------------------------
# complex
# --------------------------------------------------------------------------
def to_cplx(x):
    if isinstance(x, SComplex):
        return x
    c = coerce_real(x)
    if c is None:
        raise EngineLimit("not a number: %r" % type(x))
    if isinstance(c, SComplex):
        return c
    return SComplex(c, ZERO)


class SComplex:
    __slots__ = ("re", "im")
    __hash__ = None

    def __init__(self, re, im):
        self.re = re if isinstance(re, (SReal, float)) else mk_real(re)
        self.im = im if isinstance(im, (SReal, float)) else mk_real(im)

    isint = False

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SComplex(self.re, -self.im)

    conj = conjugate

    def _b(self, o, op, rop=False):
        if getattr(o, "ndim", 0):
            return NotImplemented
        c = coerce_real(o)
        if c is None:
            return NotImplemented
        if isinstance(c, float):
            c = SComplex(c, ZERO)
        return op(c, self) if rop else op(self, c)

    def __add__(self, o):
        return self._b(o, op_add)

    def __radd__(self, o):
        return self._b(o, op_add, True)

    def __sub__(self, o):
        return self._b(o, op_sub)

    def __rsub__(self, o):
        return self._b(o, op_sub, True)

    def __mul__(self, o):
        return self._b(o, op_mul)

    def __rmul__(self, o):
        return self._b(o, op_mul, True)

    def __truediv__(self, o):
        return self._b(o, op_div)

    def __rtruediv__(self, o):
        return self._b(o, op_div, True)

    def __pow__(self, o):
        return self._b(o, op_pow)

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        if is_zero_const(self.im):
            return abs(self.re)
        return sqrt(self.re * self.re + self.im * self.im)

    def exp(self):
        return exp(self)

    def __eq__(self, o):
        if getattr(o, "ndim", 0):
            return NotImplemented
        c = coerce_real(o)
        if c is None:
            return SFalse
        c = to_cplx(c)
        return SBool.of(self.re == c.re) & SBool.of(self.im == c.im)

    def __ne__(self, o):
        if getattr(o, "ndim", 0):
            return NotImplemented
        return ~SBool.of(self == o)

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        from . import sarray
        return sarray.coerce_scalar(self, dt)

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype("complex128")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<SComplex %r %r>" % (self.re, self.im)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarray
        return sarray.apply_ufunc(ufunc, method, inputs, kw)


def is_sym(x):
    return isinstance(x, (SReal, SComplex, SBool))


# --------------------------------------------------------------------------
# inputs
# --------------------------------------------------------------------------
def in_real(name, lo=None, hi=None):
    a = mk_atom(KIND_INPUT, ("r", name, lo, hi), name, lo=lo, hi=hi)
    return SReal(Rat(patom(a), P1)), a


def in_int(name, lo, hi):
    a = mk_atom(KIND_INPUT, ("i", name, lo, hi), name, lo=lo, hi=hi,
                isint=True)
    return SInt(Rat(patom(a), P1)), a


_BOOLS = {}


def in_bool(name):
    b = _BOOLS.get(name)
    if b is None:
        b = _BOOLS[name] = SBool(z3.Bool("b!" + name))
    return b


def pi_value():
    return SReal(Rat(patom(PI), P1))
