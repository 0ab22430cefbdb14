"""A small SIMT machine for the CUDA C of the repository's kernels.

The text that the templates render is parsed and executed warp by warp with an
active mask per statement, on symbolic or concrete values alike. Memory is
typed in words, so that reinterpreting pointers works as on the device. Things
that CUDA leaves undefined raise `Undefined`: reads and writes outside an
array, uninitialised values that reach an output, a branch or an index, races
between warps on shared memory, shuffles by lanes that are not in the mask.
"""
import re
import sys
import types
import contextlib

import numpy as onp

WARP = 32


class Undefined(Exception):
    """the kernel's behaviour is undefined"""


class CompileError(Exception):
    """the kernel text is not understood"""


class NotC(Exception):
    """the kernel text cannot compile"""


class Unsupported(Exception):
    """outside the interpreted part of the language"""


class _Uninit:
    def __repr__(self):
        return "uninitialised"


UNINIT = _Uninit()

# ---------------------------------------------------------------- tokens

TOK = re.compile(r"""
    (?P<num>0[xX][0-9a-fA-F]+[uUlL]* |
        (?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFuUlL]*)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<str>"[^"]*")
  | (?P<op><<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|
        \|=|\^=|::|[-+*/%<>=!&|^~?:;,.(){}\[\]])
""", re.X)


def lex(s):
    out, i = [], 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        m = TOK.match(s, i)
        if not m:
            raise CompileError("unexpected character %r" % s[i])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


def preprocess(code):
    code = re.sub(r"/\*.*?\*/", " ", code, flags=re.S)
    code = re.sub(r"//[^\n]*", "", code)
    code = code.replace("\\\n", " ")
    macros, body = {}, []
    for line in code.split("\n"):
        st = line.strip()
        if st.startswith("#"):
            m = re.match(r"#\s*define\s+(\w+)(\(([^)]*)\))?(.*)$", st)
            if m:
                params = None if m.group(2) is None else [
                    p.strip() for p in m.group(3).split(",") if p.strip()]
                macros[m.group(1)] = (params, lex(m.group(4)))
            elif re.match(r"#\s*(include|pragma)\b", st):
                pass
            elif re.match(r"#\s*undef\s+(\w+)", st):
                macros.pop(st.split()[-1], None)
            else:
                raise Unsupported("directive %s" % st)
            continue
        body.append(line)
        # expand with the macros known here
        body[-1] = (line, dict(macros))
    toks = []
    for line, ms in body:
        toks.extend((k, t, ms) for k, t in lex(line))
    return expand(toks, frozenset())


def expand(toks, hide):
    out, i = [], 0
    while i < len(toks):
        k, t, ms = toks[i]
        if k == "id" and t in ms and t not in hide:
            params, rep = ms[t]
            if params is None:
                out.extend(expand([(a, x, ms) for a, x in rep], hide | {t}))
                i += 1
                continue
            if i + 1 < len(toks) and toks[i + 1][1] == "(":
                args, depth, j, c = [], 0, i + 2, []
                while True:
                    if j >= len(toks):
                        raise CompileError("macro %s not closed" % t)
                    x = toks[j][1]
                    if x == ")" and depth == 0:
                        args.append(c)
                        break
                    if x == "," and depth == 0:
                        args.append(c)
                        c = []
                    else:
                        depth += x in "([{"
                        depth -= x in ")]}"
                        c.append(toks[j])
                    j += 1
                if len(args) != len(params) and params:
                    raise CompileError("macro %s arguments" % t)
                sub = dict(zip(params, args))
                new = []
                for a, x in rep:
                    new.extend(sub[x] if x in sub else [(a, x, ms)])
                out.extend(expand(new, hide | {t}))
                i = j + 1
                continue
        out.append((k, t))
        i += 1
    return [o[:2] for o in out]


# ---------------------------------------------------------------- types

class T:
    size = 1
    fields = ()


class Scalar(T):
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    def __repr__(self):
        return self.name


class Struct(T):
    def __init__(self, name, fields):
        self.name, self.fields, off = name, {}, 0
        for n, t in fields:
            self.fields[n] = (off, t)
            off += t.size
        self.size = off

    def __repr__(self):
        return self.name


class Array(T):
    def __init__(self, t, n):
        self.t, self.n, self.size = t, n, n * t.size


class Pointer(T):
    def __init__(self, t):
        self.t = t


class CArr(T):
    def __init__(self, t, nd):
        self.t, self.nd = t, nd


VOID = Scalar("void", "v")
BASE = {}
for _n in ("char", "short", "int", "long", "ptrdiff_t", "size_t", "unsigned",
           "ssize_t", "int32_t", "int64_t", "uint32_t"):
    BASE[_n] = Scalar(_n, "i")
BASE["bool"] = Scalar("bool", "b")
for _n in ("float", "double"):
    BASE[_n] = Scalar(_n, "f")
BASE["void"] = VOID
BASE["auto"] = AUTO = Scalar("auto", "a")
for _n in ("char", "short", "int", "long", "float", "double"):
    for _k in (1, 2, 3, 4):
        BASE["%s%d" % (_n, _k)] = Struct(
            "%s%d" % (_n, _k), [(c, BASE[_n]) for c in "xyzw"[:_k]])

DIM3 = Struct("dim3", [(c, BASE["int"]) for c in "xyz"])
QUALS = {"const", "static", "extern", "__device__", "__global__",
         "__forceinline__", "__restrict__", "volatile", "inline", "__shared__",
         "constexpr", "register", "__host__"}

# ---------------------------------------------------------------- parser


class TypeE:
    """a type expression, resolved where it is used"""

    def __init__(self, name, args=None, ptr=0, ref=False, struct=None):
        self.name, self.args, self.ptr, self.ref = name, args, ptr, ref
        self.struct = struct


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0
        self.types = set(BASE) | {"CArray"}
        self.consts = {}

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise CompileError("unexpected end")
        self.i += 1
        return x

    def take(self, *xs):
        if self.peek() in xs:
            return self.next()
        return None

    def need(self, x):
        if self.peek() != x:
            raise CompileError("expected %s, found %s" % (x, self.peek()))
        return self.next()

    def ident(self):
        if self.kind() != "id":
            raise CompileError("expected a name, found %s" % self.peek())
        return self.next()

    # top level
    def unit(self):
        out = []
        while self.peek() is not None:
            if self.take(";"):
                continue
            out.append(self.top())
        return out

    def top(self):
        if self.peek() == "typedef":
            return self.typedef()
        tparams = None
        self.tnames = set()
        if self.take("template"):
            tparams = self.tparams()
        if self.peek() in ("class", "struct"):
            return self.classdef(tparams)
        if self.peek() == "extern" and self.kind(1) == "str":
            self.i += 2
        saved = set(self.types)
        self.types |= self.tnames
        f = self.function(tparams)
        self.types = saved
        return f

    def tparams(self):
        self.need("<")
        out = []
        while not self.take(">"):
            if self.take("typename", "class"):
                n = self.ident()
                self.tnames.add(n)
                d = None
                if self.take("="):
                    d = self.type()
            else:
                self.type()
                n = self.ident()
                d = None
                if self.take("="):
                    d = self.shiftless()
            out.append((n, d))
            self.take(",")
        return out

    def targs(self):
        self.need("<")
        out = []
        while True:
            if self.is_type():
                out.append(self.type())
            else:
                out.append(self.shiftless())
            if not self.take(","):
                break
        self.close_eat()
        return out

    def close_eat(self):
        if self.peek() == ">>":
            self.t[self.i] = ("op", ">")
            return
        self.need(">")

    def classdef(self, tparams):
        self.next()
        name = self.ident()
        self.types.add(name)
        saved = set(self.types)
        self.types |= self.tnames
        spec = self.targs() if self.peek() == "<" else None
        self.need("{")
        members, consts, fields = {}, [], []
        while not self.take("}"):
            if self.peek() in ("public", "private") and self.peek(1) == ":":
                self.i += 2
                continue
            j = self.i
            while self.peek() in QUALS:
                self.next()
            ty = self.type()
            n = self.ident()
            if self.peek() == "(":
                self.i = j
                f = self.function(None)
                members[f[1]] = f
            elif self.take("="):
                consts.append((n, self.expr()))
                self.need(";")
            else:
                fields.append((n, self.dims(), ty))
                self.need(";")
        self.take(";")
        self.types = saved
        if tparams is None:
            return ("structdef", name, TypeE(None, struct=fields))
        return ("class", name, tparams, spec, members, consts)

    def function(self, tparams):
        while self.peek() in QUALS:
            self.next()
        ret = self.type()
        while self.peek() in QUALS:
            self.next()
        name = self.ident()
        self.need("(")
        params = []
        while not self.take(")"):
            ty = self.type()
            n = self.ident()
            if self.take("["):
                while self.next() != "]":
                    pass
                ty.ptr += 1
            params.append((ty, n))
            self.take(",")
        if self.take(";"):
            return ("proto", name)
        return ("func", name, tparams, ret, params, self.block())

    def is_type(self, k=0):
        p = self.peek(k)
        if p in QUALS or p == "struct" or p in ("typename",):
            return True
        return self.kind(k) == "id" and p in self.types

    def type(self):
        while self.peek() in QUALS or self.peek() == "typename":
            self.next()
        if self.peek() == "struct" and self.peek(1) == "{" or \
                self.peek() == "struct" and self.peek(1) == "__align__":
            t = TypeE(None, struct=self.structbody())
        else:
            self.take("struct")
            n = self.ident()
            if n in ("unsigned", "signed", "long", "short"):
                while self.peek() in ("int", "long", "char", "short"):
                    self.next()
                n = "int"
            if n not in self.types:
                raise CompileError("unknown type %s" % n)
            t = TypeE(n)
            if self.peek() == "<":
                t.args = self.targs()
        while self.peek() in QUALS:
            self.next()
        while self.take("*"):
            t.ptr += 1
            while self.peek() in QUALS:
                self.next()
        if self.take("&"):
            t.ref = True
        return t

    def structbody(self):
        self.need("struct")
        if self.take("__align__"):
            self.need("(")
            while self.next() != ")":
                pass
        self.need("{")
        fields = []
        while not self.take("}"):
            ty = self.type()
            while True:
                n = self.ident()
                fields.append((n, self.dims(), ty))
                if not self.take(","):
                    break
            self.need(";")
        return fields

    def dims(self):
        d = []
        while self.take("["):
            d.append(None if self.peek() == "]" else self.expr())
            self.need("]")
        return d

    def typedef(self):
        self.need("typedef")
        ty = self.type()
        n = self.ident()
        self.need(";")
        self.types.add(n)
        return ("typedef", n, ty)

    # statements
    def block(self):
        self.need("{")
        saved = set(self.types)
        out = []
        while not self.take("}"):
            out.append(self.stmt())
        self.types = saved
        return ("block", out)

    def is_decl(self):
        if self.peek() == "typedef" or self.peek() in QUALS:
            return True
        if self.peek() == "struct":
            return True
        return self.is_type() and self.peek(1) not in ("(", "::")

    def stmt(self):
        p = self.peek()
        if p == "{":
            return self.block()
        if self.take(";"):
            return ("block", [])
        if p == "if":
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            e = self.stmt() if self.take("else") else None
            return ("if", c, a, e)
        if p == "for":
            self.next()
            self.need("(")
            init = ("block", [])
            if not self.take(";"):
                if self.is_decl():
                    init = self.decl()
                else:
                    init = ("expr", self.expr())
                    self.need(";")
            c = None if self.peek() == ";" else self.expr()
            self.need(";")
            u = None if self.peek() == ")" else self.expr()
            self.need(")")
            return ("for", init, c, u, self.stmt())
        if p == "while":
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("for", ("block", []), c, None, self.stmt())
        if p == "do":
            self.next()
            s = self.stmt()
            self.need("while")
            self.need("(")
            c = self.expr()
            self.need(")")
            self.need(";")
            return ("do", s, c)
        if p in ("break", "continue"):
            self.next()
            self.need(";")
            return (p,)
        if p == "return":
            self.next()
            e = None if self.peek() == ";" else self.expr()
            self.need(";")
            return ("return", e)
        if p == "typedef":
            return self.typedef()
        if self.is_decl():
            return self.decl()
        e = self.expr()
        self.need(";")
        return ("expr", e)

    def decl(self):
        shared = False
        while self.peek() in QUALS:
            shared |= self.next() == "__shared__"
        ty = self.type()
        out = []
        while True:
            t = TypeE(ty.name, ty.args, ty.ptr, ty.ref, ty.struct)
            while self.take("*"):
                t.ptr += 1
            if self.take("&"):
                t.ref = True
            n = self.ident()
            dims = self.dims()
            init = None
            if self.take("="):
                init = self.braces() if self.peek() == "{" else self.assign()
            elif self.peek() == "(":
                self.need("(")
                init = self.assign()
                self.need(")")
            out.append((t, n, dims, init))
            if not self.take(","):
                break
        self.need(";")
        return ("decl", shared, out)

    def braces(self):
        self.need("{")
        xs = []
        while not self.take("}"):
            xs.append(self.assign())
            self.take(",")
        return ("braces", xs)

    # expressions
    def expr(self):
        e = self.assign()
        while self.take(","):
            e = ("comma", e, self.assign())
        return e

    ASG = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")

    def assign(self):
        e = self.ternary()
        if self.peek() in self.ASG:
            op = self.next()
            return ("assign", op[:-1], e, self.assign())
        return e

    def ternary(self):
        c = self.binary(0)
        if self.take("?"):
            a = self.assign()
            self.need(":")
            return ("cond", c, a, self.assign())
        return c

    LEV = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="),
           ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]

    def binary(self, lev):
        if lev >= len(self.LEV):
            return self.unary()
        e = self.binary(lev + 1)
        while self.peek() in self.LEV[lev]:
            op = self.next()
            e = ("bin", op, e, self.binary(lev + 1))
        return e

    def shiftless(self):
        """an expression inside <>"""
        return self.binary(8)

    def unary(self):
        p = self.peek()
        if p in ("-", "+", "!", "~", "*", "&"):
            self.next()
            return ("un", p, self.unary())
        if p in ("++", "--"):
            self.next()
            return ("assign", p[0], self.unary(), ("num", "1"))
        if p == "(" and self.is_type(1) and self.cast_ahead():
            self.next()
            t = self.type()
            self.need(")")
            return ("cast", t, self.unary())
        return self.postfix()

    def cast_ahead(self):
        j = self.i
        try:
            self.next()
            self.type()
            return self.peek() == ")"
        except CompileError:
            return False
        finally:
            self.i = j

    def postfix(self):
        e = self.primary()
        while True:
            p = self.peek()
            if p == "[":
                self.next()
                ix = self.expr()
                self.need("]")
                e = ("index", e, ix)
            elif p == ".":
                self.next()
                e = ("field", e, self.ident())
            elif p == "->":
                self.next()
                e = ("field", ("un", "*", e), self.ident())
            elif p == "(":
                self.next()
                args = []
                while not self.take(")"):
                    args.append(self.assign())
                    self.take(",")
                e = ("call", e, args)
            elif p in ("++", "--"):
                self.next()
                e = ("post", p[0], e)
            else:
                return e

    def primary(self):
        k, p = self.kind(), self.peek()
        if k == "num":
            return ("num", self.next())
        if p == "(":
            self.next()
            e = self.expr()
            self.need(")")
            return e
        if p == "::":
            self.next()
            return ("name", self.ident())
        if p in ("reinterpret_cast", "static_cast", "const_cast"):
            self.next()
            self.need("<")
            t = self.type()
            self.close_eat()
            self.need("(")
            e = self.expr()
            self.need(")")
            return ("rcast" if p[0] == "r" else "cast", t, e)
        if k == "id" and p in ("true", "false"):
            self.next()
            return ("num", "1" if p == "true" else "0")
        if k == "id" and p in self.types:
            t = self.type()
            if self.take("::"):
                return ("scope", t, self.ident())
            self.need("(")
            e = self.expr()
            self.need(")")
            return ("cast", t, e)
        if k == "id":
            return ("name", self.next())
        raise CompileError("unexpected %s" % p)


# ---------------------------------------------------------------- memory

class Mem:
    """words of memory; space is 'global', 'shared' or 'local'"""

    def __init__(self, words, space, name=""):
        self.w, self.space, self.name = words, space, name
        if space == "shared":
            self.log = {}


class LV:
    __slots__ = ("m", "o", "t")

    def __init__(self, m, o, t):
        self.m, self.o, self.t = m, o, t


class PV:
    """pointer value"""
    __slots__ = ("m", "o", "t")

    def __init__(self, m, o, t):
        self.m, self.o, self.t = m, o, t


class CV:
    """CArray value"""

    def __init__(self, m, t, shape):
        self.m, self.t, self.shape = m, t, shape


class ShapeV:
    def __init__(self, shape):
        self.shape = shape


class RV:
    """struct value: the words"""
    __slots__ = ("t", "w")

    def __init__(self, t, w):
        self.t, self.w = t, w


class Env:
    def __init__(self, up=None):
        self.v, self.up = {}, up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.up
        return None


def is_int(v):
    return isinstance(v, (int, onp.integer)) or getattr(v, "isint", False) \
        or type(v).__name__ == "SBool"


class Device:
    def __init__(self, code, name, npx, consts):
        self.np, self.consts = npx, consts
        p = Parser(preprocess(code))
        self.funcs, self.classes, self.top = {}, {}, Env()
        self.ctypes = {}
        for d in p.unit():
            if d[0] == "func":
                self.funcs[d[1]] = d
            elif d[0] == "class":
                self.classes.setdefault(d[1], []).append(d)
            elif d[0] in ("typedef", "structdef"):
                self.top.v[d[1]] = ("type", self.resolve(d[2], self.top))
        if name not in self.funcs:
            raise CompileError("no kernel %s" % name)
        self.kernel = self.funcs[name]

    # -- types
    def resolve(self, t, env, warp=None):
        if t.struct is not None:
            fs = []
            for n, dims, ty in t.struct:
                ft = self.resolve(ty, env)
                for d in reversed(dims):
                    ft = Array(ft, self.const(d, env))
                fs.append((n, ft))
            r = Struct("struct", fs)
        else:
            e = env.find(t.name)
            if isinstance(e, tuple) and e[0] == "type":
                r = e[1]
            elif t.name == "CArray":
                r = CArr(self.resolve(t.args[0], env),
                         self.const(t.args[1], env))
            elif t.name in self.classes:
                args = [self.resolve(a, env) if isinstance(a, TypeE)
                        else self.const(a, env) for a in t.args]
                r = self.instance(t.name, args)
            elif t.name in BASE:
                r = BASE[t.name]
            else:
                raise CompileError("unknown type %s" % t.name)
        for _ in range(t.ptr):
            r = Pointer(r)
        return r

    def const(self, e, env):
        v = self.static(e, env)
        return int(v)

    def static(self, e, env):
        if e[0] == "num":
            return int(re.sub(r"[uUlL]+$", "", e[1]), 0)
        if e[0] == "name":
            v = env.find(e[1])
            if isinstance(v, tuple) and v[0] == "const":
                return v[1]
        if e[0] == "bin":
            a, b = self.static(e[2], env), self.static(e[3], env)
            return {"+": a + b, "-": a - b, "*": a * b,
                    "/": a // b if b else 0, "%": a % b if b else 0,
                    "<<": a << b, ">>": a >> b, "&": a & b}[e[1]]
        raise Unsupported("constant %r" % (e,))

    def instance(self, name, args):
        prim = [c for c in self.classes[name] if c[3] is None]
        for n, d in prim[0][2][len(args):] if prim else []:
            if d is None:
                raise CompileError("template argument %s" % n)
            args.append(self.resolve(d, self.top) if isinstance(d, TypeE)
                        else self.const(d, self.top))
        best = None
        for c in self.classes[name]:
            env = Env(self.top)
            if c[3] is None:
                for (n, _), a in zip(c[2], args):
                    env.v[n] = ("type", a) if isinstance(a, T) else (
                        "const", a)
                best = best or (c, env)
                continue
            names = {n for n, _ in c[2]}
            ok = len(c[3]) == len(args)
            for pat, a in zip(c[3], args):
                n = pat.name if isinstance(pat, TypeE) else (
                    pat[1] if pat[0] == "name" else None)
                if n in names:
                    env.v[n] = ("type", a) if isinstance(a, T) else (
                        "const", a)
                elif isinstance(pat, TypeE):
                    ok &= self.resolve(pat, self.top) is a
                else:
                    ok &= not isinstance(a, T) and self.const(
                        pat, self.top) == a
            if ok:
                best = (c, env)
        if best is None:
            raise CompileError("no %s for %s" % (name, args))
        c, env = best
        for n, e in c[5]:
            env.v[n] = ("const", self.const(e, env))
        t = Struct(name, [])
        t.members, t.env = c[4], env
        return t

    # -- launch
    def launch(self, grid, block, args):
        f = self.kernel
        params = f[4]
        if len(params) != len(args):
            raise Undefined("kernel takes %d arguments, %d given" % (
                len(params), len(args)))
        base = Env(self.top)
        outs = []
        for (ty, n), a in zip(params, args):
            t = self.resolve(ty, self.top)
            if isinstance(t, CArr):
                shape = tuple(int(s) for s in a.shape)
                if len(shape) != t.nd:
                    raise Undefined("%s has %d dimensions, kernel expects %d"
                                    % (n, len(shape), t.nd))
                m = Mem(self.words(a, t.t, n), "global", n)
                outs.append((a, m, t.t))
                base.v[n] = CV(m, t.t, shape)
            else:
                base.v[n] = ("val", a)
        for bz in range(grid[2]):
            for by in range(grid[1]):
                for bx in range(grid[0]):
                    Block(self, f, base, (bx, by, bz), block, grid).run()
        for a, m, t in outs:
            self.store_back(a, m, t)

    def words(self, a, t, name):
        kind = onp.dtype(a.dtype).kind
        flat = list(a.reshape(-1)) if a.size else []
        want = {"c": 2, "f": 1, "i": 1, "u": 1, "b": 1}[kind]
        if t.size != want:
            raise Undefined("%s: %s array seen as %s" % (name, a.dtype, t))
        el = t if isinstance(t, Scalar) else t.fields["x"][1]
        bits = {"float": "f4", "double": "f8", "int": "i4", "char": "i1",
                "short": "i2", "unsigned": "u4"}.get(el.name)
        real = onp.dtype(a.dtype) if kind != "c" else onp.dtype(
            "f%d" % (onp.dtype(a.dtype).itemsize // 2))
        if bits and onp.dtype(bits).itemsize != real.itemsize:
            raise Undefined("%s: %s array seen as %s" % (name, a.dtype, t))
        if (el.kind == "f") != (real.kind == "f"):
            raise Undefined("%s: %s array seen as %s" % (name, a.dtype, t))
        if getattr(a, "_cuda_uninit", False) or name_uninit(a):
            return [UNINIT] * (want * a.size)
        out = []
        for x in flat:
            if kind == "c":
                out.extend([x.real, x.imag])
            else:
                out.append(int(x) if kind in "iub" and not hasattr(
                    x, "rat") else x)
        return out

    def store_back(self, a, m, t):
        if not any(getattr(m, "dirty", ())):
            return
        clear_uninit(a)
        n = t.size
        flat = []
        for i in range(a.size):
            ws = m.w[i * n:(i + 1) * n]
            if any(w is UNINIT for w in ws):
                raise Undefined("%s: element %d never written" % (m.name, i))
            flat.append(ws[0] if n == 1 else self.cplx(*ws))
        shape = tuple(int(s) for s in a.shape)
        k = 0
        for ix in onp.ndindex(*shape):
            a[ix] = flat[k]
            k += 1

    def cplx(self, re_, im):
        return self.mkc(re_, im)

    mkc = staticmethod(lambda r, i: complex(r, i))


_UNINIT_IDS = {}


def name_uninit(a):
    return id(a) in _UNINIT_IDS


def clear_uninit(a):
    _UNINIT_IDS.pop(id(a), None)


class Block:
    def __init__(self, dev, f, base, bidx, bdim, gdim):
        self.dev, self.f, self.base = dev, f, base
        self.bidx, self.bdim, self.gdim = bidx, bdim, gdim
        self.shared = {}
        self.epoch = 0

    def run(self):
        bx, by, bz = self.bdim
        n = bx * by * bz
        warps = []
        for w0 in range(0, n, WARP):
            ids = {}
            for lane in range(min(WARP, n - w0)):
                i = w0 + lane
                ids[lane] = (i % bx, i // bx % by, i // (bx * by))
            warps.append(Warp(self, w0 // WARP, ids))
        live = [(w, w.main()) for w in warps]
        while live:
            nxt = []
            for w, g in live:
                try:
                    next(g)
                    nxt.append((w, g))
                except StopIteration:
                    pass
            live = nxt
            self.epoch += 1


class Frame:
    def __init__(self):
        self.ret, self.vals = set(), {}


class Warp:
    def __init__(self, block, no, ids):
        self.b, self.no, self.ids = block, no, ids
        self.d = block.dev
        self.np = self.d.np

    def main(self):
        env = Env(self.b.base)
        fr = Frame()
        yield from self.stmt(self.b.f[5], set(self.ids), env, fr)

    # statements: return the lanes that go on to the next statement
    def stmt(self, s, mask, env, fr):
        k = s[0]
        if not mask:
            return mask
        if k == "block":
            e = Env(env)
            for x in s[1]:
                mask = yield from self.stmt(x, mask, e, fr)
                if not mask:
                    break
            return mask
        if k == "expr":
            if s[1][0] == "call" and s[1][1] == ("name", "__syncthreads"):
                yield "sync"
                return mask
            self.ev(s[1], mask, env)
            return mask
        if k == "decl":
            for d in s[2]:
                self.declare(s[1], d, mask, env)
            return mask
        if k == "if":
            yes = {i for i, c in self.truth(s[1], mask, env).items() if c}
            no = mask - yes
            yes = yield from self.stmt(s[2], yes, env, fr)
            if s[3] is not None:
                no = yield from self.stmt(s[3], no, env, fr)
            return yes | no
        if k in ("for", "do"):
            e = Env(env)
            lp = dict(brk=set(), cnt=set())
            e.v["$loop"] = lp
            out = set()
            if k == "for":
                yield from self.stmt_in(s[1], mask, e, fr)
            first = k == "do"
            cond = s[2]
            n = 0
            while mask:
                n += 1
                if n > 100000:
                    raise Undefined("endless loop")
                if cond is not None and not first:
                    t = self.truth(cond, mask, e)
                    out |= {i for i in mask if not t[i]}
                    mask = {i for i in mask if t[i]}
                    if not mask:
                        break
                first = False
                lp["brk"], lp["cnt"] = set(), set()
                body = s[4] if k == "for" else s[1]
                mask = yield from self.stmt(body, mask, e, fr)
                out |= lp["brk"]
                mask = mask | lp["cnt"]
                if k == "for" and s[3] is not None and mask:
                    self.ev(s[3], mask, e)
            return out | mask
        if k in ("break", "continue"):
            env.find("$loop")["brk" if k == "break" else "cnt"] |= mask
            return set()
        if k == "return":
            if s[1] is not None:
                for i, v in self.rv(s[1], mask, env).items():
                    fr.vals[i] = v
            fr.ret |= mask
            return set()
        if k == "typedef":
            env.v[s[1]] = ("type", self.d.resolve(s[2], env))
            return mask
        raise Unsupported(k)

    def stmt_in(self, s, mask, e, fr):
        """run without opening a scope of its own"""
        if s[0] == "block" and not s[1]:
            return mask
        return (yield from self.stmt(s, mask, e, fr))

    def declare(self, shared, d, mask, env):
        te, name, dims, init = d
        t = self.d.resolve(te, env)
        if t is AUTO:
            x = next(iter(self.ev(init, mask, env).values()))
            if isinstance(x, LV) and isinstance(x.t, Array) and not te.ref:
                t = Pointer(x.t.t)
            elif isinstance(x, (LV, RV)):
                t = x.t
            elif isinstance(x, PV):
                t = Pointer(x.t)
            elif isinstance(x, (CV, ShapeV)):
                raise Unsupported("auto")
            else:
                t = BASE["int"] if is_int(x) else BASE["double"]
        if dims == [None]:
            if not init or init[0] != "braces":
                raise CompileError("array size of %s" % name)
            t = Array(t, len(init[1]))
        else:
            for x in reversed(dims):
                t = Array(t, self.d.const(x, env))
        if shared:
            key = id(d)
            if key not in self.b.shared:
                self.b.shared[key] = Mem([UNINIT] * t.size, "shared", name)
            m = self.b.shared[key]
            env.v[name] = {i: LV(m, 0, t) for i in self.ids}
            return
        if te.ref:
            r = self.ev(init, mask, env)
            cell = dict(env.v.get(name, {}))
            for i in mask:
                v = r[i]
                if not isinstance(v, LV):
                    m = Mem([UNINIT] * t.size, "local", name)
                    v2 = LV(m, 0, t)
                    self.store(v2, v, i)
                    v = v2
                cell[i] = v
            env.v[name] = cell
            return
        cell = dict(env.v.get(name, {}))
        for i in mask:
            cell[i] = LV(Mem([UNINIT] * t.size, "local", name), 0, t)
        if init is not None:
            if init[0] == "braces":
                for n, x in enumerate(init[1]):
                    v = self.rv(x, mask, env)
                    for i in mask:
                        if isinstance(t, Array):
                            lv = LV(cell[i].m, n * t.t.size, t.t)
                        else:
                            o, ft = list(t.fields.values())[n]
                            lv = LV(cell[i].m, o, ft)
                        self.store(lv, v[i], i)
            else:
                v = self.rv(init, mask, env)
                for i in mask:
                    self.store(cell[i], v[i], i)
        env.v[name] = cell

    # memory
    def chk(self, m, o, n):
        if o < 0 or o + n > len(m.w):
            raise Undefined("%s memory %s: word %d of %d" % (
                m.space, m.name, o, len(m.w)))

    def load(self, lv, lane):
        t = lv.t
        if isinstance(t, Array):
            return PV(lv.m, lv.o, t.t)
        n = t.size
        self.chk(lv.m, lv.o, n)
        m = lv.m
        if m.space == "shared":
            self.sread(m, lv.o, n)
        ws = m.w[lv.o:lv.o + n]
        if isinstance(t, Struct):
            return RV(t, list(ws))
        return ws[0]

    def sread(self, m, o, n):
        for k in range(o, o + n):
            ep, writers, readers = m.log.get(k, (-1, set(), set()))
            if ep != self.b.epoch:
                writers, readers = set(), set()
            if writers and self.no not in writers:
                raise Undefined("shared memory %s is read while another warp "
                                "writes it" % m.name)
            m.log[k] = (self.b.epoch, writers, readers | {self.no})

    def swrite(self, m, o, ws):
        for k, w in zip(range(o, o + len(ws)), ws):
            ep, writers, readers = m.log.get(k, (-1, set(), set()))
            if ep != self.b.epoch:
                writers, readers = set(), set()
            if (writers - {self.no} or readers - {self.no}):
                if not (m.w[k] is w or self.same(m.w[k], w)):
                    raise Undefined("shared memory %s is written while "
                                    "another warp uses it" % m.name)
            m.log[k] = (self.b.epoch, writers | {self.no}, readers)

    @staticmethod
    def same(a, b):
        if a is UNINIT or b is UNINIT:
            return False
        return bool(a == b)

    def store(self, lv, v, lane):
        t, m = lv.t, lv.m
        if isinstance(v, LV):
            v = self.load(v, lane)
        if isinstance(t, Struct):
            if not isinstance(v, RV) or v.t.size != t.size:
                raise CompileError("assigning %r to %r" % (v, t))
            ws = v.w
            ks = [None] * len(ws)
            if len({type(f[1]) for f in t.fields.values()}) == 1:
                ks = [f[1] for f in t.fields.values()]
            if len(ks) == len(ws) and all(isinstance(k, Scalar) for k in ks):
                ws = [self.conv(w, k) for w, k in zip(ws, ks)]
        else:
            ws = [self.conv(v, t)]
        self.chk(m, lv.o, len(ws))
        if m.space == "global":
            if any(w is UNINIT for w in ws):
                raise Undefined("an uninitialised value is written to %s"
                                % m.name)
            if not hasattr(m, "dirty"):
                m.dirty = [True]
        elif m.space == "shared":
            self.swrite(m, lv.o, ws)
        m.w[lv.o:lv.o + len(ws)] = ws

    def conv(self, v, t):
        if v is UNINIT or isinstance(t, Pointer):
            return v
        if isinstance(v, (RV, PV, CV)):
            raise CompileError("cannot convert to %r" % t)
        if t.kind == "f":
            return self.real(v)
        if t.kind == "b":
            return 1 if bool(v) else 0
        if t.kind == "i":
            return self.toint(v)
        return v

    def real(self, v):
        if isinstance(v, bool) or isinstance(v, (int, onp.integer)):
            return self.d.mkr(int(v))
        if type(v).__name__ == "SBool":
            return self.d.mkr(int(bool(v)))
        if getattr(v, "isint", False):
            return type(self.d.mkr(0))(v.r)
        return v

    def toint(self, v):
        if isinstance(v, (int, onp.integer)):
            return int(v)
        if type(v).__name__ == "SBool":
            return int(bool(v))
        if getattr(v, "isint", False):
            return v
        return self.d.trunc(v)

    def idx(self, v):
        if v is UNINIT:
            raise Undefined("an uninitialised value is used as an index")
        return v.__index__() if hasattr(v, "__index__") else int(v)

    # expressions: dict lane -> LV or value
    def rv(self, e, mask, env):
        r = self.ev(e, mask, env)
        return {i: self.load(v, i) if isinstance(v, LV) else v
                for i, v in r.items()}

    def truth(self, e, mask, env):
        out = {}
        for i, v in self.rv(e, mask, env).items():
            if v is UNINIT:
                raise Undefined("a branch depends on an uninitialised value")
            out[i] = bool(v)
        return out

    def ev(self, e, mask, env):
        return getattr(self, "e_" + e[0])(e, mask, env)

    def e_num(self, e, mask, env):
        v = self.number(e[1])
        return dict.fromkeys(mask, v)

    def number(self, s):
        if s[:2].lower() == "0x":
            return int(s.rstrip("uUlL"), 16)
        if re.fullmatch(r"\d+[uUlL]*", s):
            return int(s.rstrip("uUlL"))
        return self.d.mkr(s.rstrip("fFlL"))

    def e_name(self, e, mask, env):
        n = e[1]
        v = env.find(n)
        if v is None:
            if n in ("threadIdx", "blockIdx", "blockDim", "gridDim"):
                b = self.b
                return {i: RV(DIM3, list(
                    self.ids[i] if n == "threadIdx" else b.bidx
                    if n == "blockIdx" else b.bdim if n == "blockDim"
                    else b.gdim)) for i in mask}
            if n == "warpSize":
                return dict.fromkeys(mask, WARP)
            if n in self.d.consts:
                return dict.fromkeys(mask, self.d.consts[n])
            raise CompileError("undeclared %s" % n)
        if isinstance(v, tuple):
            if v[0] in ("const", "val"):
                return dict.fromkeys(mask, v[1])
            raise CompileError("%s is a type" % n)
        if isinstance(v, CV):
            return dict.fromkeys(mask, v)
        return {i: v[i] for i in mask}

    def e_comma(self, e, mask, env):
        self.ev(e[1], mask, env)
        return self.ev(e[2], mask, env)

    def e_cond(self, e, mask, env):
        t = self.truth(e[1], mask, env)
        yes = {i for i in mask if t[i]}
        no = set(mask) - yes
        out = self.rv(e[2], yes, env) if yes else {}
        out.update(self.rv(e[3], no, env) if no else {})
        return out

    def e_assign(self, e, mask, env):
        v = self.rv(e[3], mask, env)
        l = self.ev(e[2], mask, env)
        for i in sorted(mask):
            if not isinstance(l[i], LV):
                raise CompileError("not assignable")
            x = v[i]
            if e[1]:
                x = self.op(e[1], self.load(l[i], i), x)
            self.store(l[i], x, i)
        return l

    def e_post(self, e, mask, env):
        l = self.ev(e[2], mask, env)
        out = {}
        for i in sorted(mask):
            out[i] = self.load(l[i], i)
            self.store(l[i], self.op(e[1], out[i], 1), i)
        return out

    def e_bin(self, e, mask, env):
        op = e[1]
        if op in ("&&", "||"):
            t = self.truth(e[2], mask, env)
            go = {i for i in mask if t[i] == (op == "&&")}
            u = self.truth(e[3], go, env) if go else {}
            return {i: int(u[i]) if i in u else int(t[i]) for i in mask}
        a, b = self.rv(e[2], mask, env), self.rv(e[3], mask, env)
        return {i: self.op(op, a[i], b[i]) for i in mask}

    def op(self, op, a, b):
        if a is UNINIT or b is UNINIT:
            return UNINIT
        if isinstance(a, PV):
            if op in "+-" and is_int(b):
                k = self.idx(b) * a.t.size
                return PV(a.m, a.o + (k if op == "+" else -k), a.t)
            raise Unsupported("pointer %s" % op)
        if isinstance(b, PV) and op == "+":
            return self.op(op, b, a)
        if isinstance(a, (RV, CV)) or isinstance(b, (RV, CV)):
            raise CompileError("operator %s on a structure" % op)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in "/%":
            if is_int(a) and is_int(b):
                if b == 0:
                    raise Undefined("integer division by zero")
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    q = q if (a < 0) == (b < 0) else -q
                    return q if op == "/" else a - q * b
                return a // b if op == "/" else a % b
            if op == "%":
                raise CompileError("% on real numbers")
            return self.d.div(a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            a, b = self.idx(a), self.idx(b)
            return {"&": a & b, "|": a | b, "^": a ^ b,
                    "<<": a << b if op == "<<" else 0,
                    ">>": a >> b if op == ">>" else 0}[op]
        r = {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b,
             ">=": lambda: a >= b, "==": lambda: a == b,
             "!=": lambda: a != b}[op]()
        return int(r) if isinstance(r, (bool, onp.bool_)) else r

    def e_un(self, e, mask, env):
        op = e[1]
        if op == "&":
            r = self.ev(e[2], mask, env)
            out = {}
            for i, v in r.items():
                if not isinstance(v, LV):
                    raise CompileError("address of a value")
                out[i] = PV(v.m, v.o, v.t)
            return out
        r = self.rv(e[2], mask, env)
        out = {}
        for i, v in r.items():
            if op == "*" and v is UNINIT:
                raise Undefined("an uninitialised pointer is used")
            if op == "*":
                if not isinstance(v, PV):
                    raise NotC("* of a value")
                out[i] = LV(v.m, v.o, v.t)
            elif v is UNINIT:
                out[i] = v
            elif op == "-":
                out[i] = -v
            elif op == "+":
                out[i] = v
            elif op == "!":
                out[i] = 0 if bool(v) else 1
            else:
                out[i] = ~self.idx(v)
        return out

    def e_index(self, e, mask, env):
        a, x = self.ev(e[1], mask, env), self.rv(e[2], mask, env)
        out = {}
        for i in mask:
            v = a[i]
            if isinstance(v, LV) and isinstance(v.t, Array):
                k = self.idx(x[i])
                if not 0 <= k < v.t.n:
                    raise Undefined("%s[%d] of %d" % (v.m.name, k, v.t.n))
                out[i] = LV(v.m, v.o + k * v.t.t.size, v.t.t)
                continue
            if isinstance(v, LV):
                v = self.load(v, i)
            if isinstance(v, CV):
                k = x[i]
                if isinstance(k, PV):
                    f = 0
                    for n, s in enumerate(v.shape):
                        j = self.idx(k.m.w[k.o + n])
                        if not 0 <= j < s:
                            raise Undefined("%s: index %d is %d of %d" % (
                                v.m.name, n, j, s))
                        f = f * s + j
                    k = f
                else:
                    k = self.idx(k)
                if not 0 <= k * v.t.size <= max(0, len(v.m.w) - 1):
                    raise Undefined("%s: element %d" % (v.m.name, k))
                out[i] = LV(v.m, k * v.t.size, v.t)
            elif isinstance(v, PV):
                out[i] = LV(v.m, v.o + self.idx(x[i]) * v.t.size, v.t)
            elif isinstance(v, ShapeV):
                k = self.idx(x[i])
                if not 0 <= k < len(v.shape):
                    raise Undefined("shape()[%d]" % k)
                out[i] = v.shape[k]
            else:
                raise CompileError("not indexable")
        return out

    def e_field(self, e, mask, env):
        r = self.ev(e[1], mask, env)
        out = {}
        for i in mask:
            v = r[i]
            if isinstance(v, CV):
                out[i] = (v, e[2])
                continue
            t = v.t
            if e[2] not in t.fields:
                raise CompileError("no member %s" % e[2])
            o, ft = t.fields[e[2]]
            if isinstance(v, LV):
                out[i] = LV(v.m, v.o + o, ft)
            elif isinstance(ft, Struct):
                out[i] = RV(ft, v.w[o:o + ft.size])
            else:
                out[i] = v.w[o]
        return out

    def e_cast(self, e, mask, env):
        t = self.d.resolve(e[1], env)
        r = self.rv(e[2], mask, env)
        return {i: self.conv(v, t) for i, v in r.items()}

    def e_rcast(self, e, mask, env):
        t = self.d.resolve(e[1], env)
        if not isinstance(t, Pointer):
            raise Unsupported("reinterpret_cast")
        return {i: PV(v.m, v.o, t.t)
                for i, v in self.rv(e[2], mask, env).items()}

    def e_scope(self, e, mask, env):
        t = self.d.resolve(e[1], env)
        v = t.env.find(e[2])
        if v is None or v[0] != "const":
            raise CompileError("no %s" % e[2])
        return dict.fromkeys(mask, v[1])

    def e_call(self, e, mask, env):
        f = e[1]
        if f[0] == "field":
            r = self.ev(f, mask, env)
            out = {}
            for i, (v, n) in r.items():
                if n == "shape":
                    out[i] = ShapeV(v.shape)
                elif n == "size":
                    out[i] = int(onp.prod(v.shape))
                elif n == "strides":
                    raise Unsupported("strides")
                else:
                    raise CompileError(n)
            return out
        if f[0] == "scope":
            t = self.d.resolve(f[1], env)
            if f[2] not in t.members:
                raise CompileError("no %s in %s" % (f[2], t))
            return self.call(t.members[f[2]], e[2], mask, env, t.env)
        if f[0] != "name":
            raise CompileError("not a function")
        n = f[1]
        if n in self.d.funcs:
            return self.call(self.d.funcs[n], e[2], mask, env, self.d.top)
        fn = getattr(self, "f_" + n.strip("_"), None)
        if fn is not None and n not in ("x",):
            return fn(e[2], mask, env)
        m = re.fullmatch(r"make_(\w+[1234])", n)
        if m and m.group(1) in BASE:
            t = BASE[m.group(1)]
            vs = [self.rv(a, mask, env) for a in e[2]]
            if len(vs) != t.size:
                raise CompileError("%s of %d values" % (n, len(vs)))
            el = t.fields["x"][1]
            return {i: RV(t, [self.conv(v[i], el) for v in vs]) for i in mask}
        if n in FN:
            vs = [self.rv(a, mask, env) for a in e[2]]
            return {i: UNINIT if any(v[i] is UNINIT for v in vs) else
                    FN[n](self, *[v[i] for v in vs]) for i in mask}
        raise CompileError("unknown function %s" % n)

    def call(self, f, args, mask, env, fenv):
        e = Env(fenv)
        fr = Frame()
        tps = {n for n, _ in f[2] or []}
        for (ty, n), a in zip(f[4], args):
            v = self.ev(a, mask, env)
            if ty.name in tps and ty.name not in e.v:
                x = next(iter(v.values()))
                e.v[ty.name] = ("type", x.t if isinstance(x, (LV, RV))
                                else BASE["double"])
            t = self.d.resolve(ty, e)
            cell = {}
            for i in mask:
                if ty.ref and isinstance(v[i], LV):
                    if v[i].t.size != t.size:
                        raise CompileError("argument %s of %s" % (n, f[1]))
                    cell[i] = v[i]
                    continue
                x = v[i]
                if isinstance(x, CV):
                    cell = x
                    break
                if isinstance(x, LV):
                    x = self.load(x, i)
                cell[i] = LV(Mem([UNINIT] * t.size, "local", n), 0, t)
                self.store(cell[i], x, i)
            e.v[n] = cell
        if len(f[4]) != len(args):
            raise CompileError("arguments of %s" % f[1])
        for _ in self.stmt(f[5], set(mask), e, fr):
            raise Unsupported("__syncthreads in a function")
        return {i: fr.vals.get(i, UNINIT) for i in mask}

    # warp and memory intrinsics
    def bits(self, mask):
        return sum(1 << i for i in mask)

    def f_activemask(self, args, mask, env):
        return dict.fromkeys(mask, self.bits(mask))

    def inmask(self, m, mask, what):
        for i in mask:
            if m[i] is UNINIT:
                raise Undefined("%s mask" % what)
            if not (self.idx(m[i]) >> i) & 1:
                raise Undefined("lane %d calls %s but is not in its mask %#x"
                                % (i, what, self.idx(m[i]) & 0xffffffff))

    def f_ballot_sync(self, args, mask, env):
        m = self.rv(args[0], mask, env)
        self.inmask(m, mask, "__ballot_sync")
        p = self.truth(args[1], mask, env)
        b = self.bits(i for i in mask if p[i])
        return {i: b & self.idx(m[i]) for i in mask}

    def f_syncwarp(self, args, mask, env):
        return dict.fromkeys(mask, 0)

    def shfl(self, args, mask, env, src):
        m = self.rv(args[0], mask, env)
        self.inmask(m, mask, "__shfl_sync")
        v = self.rv(args[1], mask, env)
        x = self.rv(args[2], mask, env)
        w = self.rv(args[3], mask, env) if len(args) > 3 else \
            dict.fromkeys(mask, WARP)
        out = {}
        for i in mask:
            wd = self.idx(w[i])
            if wd not in (1, 2, 4, 8, 16, 32):
                raise Undefined("shuffle width %d" % wd)
            s = src(i, self.idx(x[i]), wd)
            out[i] = v.get(s, UNINIT)
        return out

    def f_shfl_sync(self, args, mask, env):
        return self.shfl(args, mask, env,
                         lambda i, x, w: i // w * w + x % w)

    def f_shfl_xor_sync(self, args, mask, env):
        return self.shfl(args, mask, env, lambda i, x, w: i ^ x)

    def f_shfl_down_sync(self, args, mask, env):
        return self.shfl(args, mask, env, lambda i, x, w: i + x
                         if i % w + x < w else i)

    def f_shfl_up_sync(self, args, mask, env):
        return self.shfl(args, mask, env, lambda i, x, w: i - x
                         if i % w - x >= 0 else i)

    def f_ldg(self, args, mask, env):
        out = {}
        for i, p in self.rv(args[0], mask, env).items():
            if p is UNINIT:
                raise Undefined("an uninitialised pointer is read")
            out[i] = self.load(LV(p.m, p.o, p.t), i)
        return out

    def sincos_(self, args, mask, env, scale):
        x = self.rv(args[0], mask, env)
        s, c = self.rv(args[1], mask, env), self.rv(args[2], mask, env)
        for i in mask:
            v = x[i]
            if v is not UNINIT:
                v = self.real(v) * scale
            for p, fn in ((s[i], self.np.sin), (c[i], self.np.cos)):
                self.store(LV(p.m, p.o, p.t), UNINIT if v is UNINIT
                           else fn(v), i)
        return dict.fromkeys(mask, 0)

    def f_sincos(self, args, mask, env):
        return self.sincos_(args, mask, env, 1)

    f_sincosf = f_sincos

    def f_sincospi(self, args, mask, env):
        return self.sincos_(args, mask, env, self.np.pi)

    f_sincospif = f_sincospi


INF = float("inf")


def _rsqrt(w, x):
    x = w.real(x)
    if x == 0:
        return INF
    return w.d.div(w.d.mkr(1), w.np.sqrt(x))


def _isfinite(w, x):
    if isinstance(x, float):
        return int(x == x and abs(x) != INF)
    return 1


FN = {}
for _s in ("", "f"):
    FN["sqrt" + _s] = lambda w, x: w.np.sqrt(w.real(x))
    FN["rsqrt" + _s] = _rsqrt
    FN["sin" + _s] = lambda w, x: w.np.sin(w.real(x))
    FN["cos" + _s] = lambda w, x: w.np.cos(w.real(x))
    FN["exp" + _s] = lambda w, x: w.np.exp(w.real(x))
    FN["fabs" + _s] = lambda w, x: abs(w.real(x))
    FN["floor" + _s] = lambda w, x: w.real(w.np.floor(w.real(x)))
    FN["fmin" + _s] = lambda w, x, y: w.real(x) if x < y else w.real(y)
    FN["fmax" + _s] = lambda w, x, y: w.real(x) if x > y else w.real(y)
FN["min"] = lambda w, x, y: x if x < y else y
FN["max"] = lambda w, x, y: x if x > y else y
FN["abs"] = lambda w, x: abs(x)
FN["isfinite"] = _isfinite
FN["hypot"] = lambda w, x, y: w.np.sqrt(w.real(x) * x + w.real(y) * y)


# ---------------------------------------------------------------- cupy

TYPENAMES = {"float32": "float", "float64": "double", "int32": "int",
             "int64": "long long", "complex64": "complex<float>",
             "complex128": "complex<double>", "bool": "bool",
             "uint32": "unsigned int", "int16": "short", "int8": "char"}

MODS = ["africanus.util.cuda", "africanus.rime.cuda", "africanus.rime.cuda.phase",
        "africanus.rime.cuda.feeds", "africanus.rime.cuda.predict",
        "africanus.rime.cuda.beam", "africanus.model.coherency.cuda",
        "africanus.model.coherency.cuda.conversion", "africanus.util.jinja2"]
LIBS = ["cupy", "cupy.core", "cupy.core._scalar", "cupy.cuda",
        "cupy.cuda.compiler"]


@contextlib.contextmanager
def cupy(b):
    """a cupy whose kernels run on the machine above; yields a loader"""
    from engine import core
    from engine.harness import Invalid
    old = {n: sys.modules.get(n) for n in MODS + LIBS}
    consts = {}
    sym = b.symbolic
    oldstr = core.SReal.__dict__.get("__str__")
    def sstr(self):
        n = "__sym%d__" % len(consts)
        consts[n] = self
        return n

    class RawKernel:
        def __init__(self, code, name):
            self.code = code.decode() if isinstance(code, bytes) else code
            self.name = name

        def __call__(self, grid, block, args):
            if any(g < 1 for g in grid):
                raise ValueError("empty grid")
            n = block[0] * block[1] * block[2]
            if n > 1024:
                raise Undefined("block of %d threads" % n)
            try:
                self.run(grid, block, args)
            except NotC as e:
                raise compiler.CompileException(str(e))
            except Undefined:
                raise
            except Exception as e:
                # not understood: no verdict
                msg = "kernel %s: %s %s" % (self.name, type(e).__name__, e)
                if sym:
                    raise core.EngineLimit(msg)
                raise Invalid(msg)

        def run(self, grid, block, args):
            dev = Device(self.code, self.name, b.np, consts)
            if sym:
                dev.mkr = lambda x: core.mk_real(core.Fraction(x))
                dev.mkc = lambda r, i: core.SComplex(core.mk_real(r),
                                                     core.mk_real(i))
                dev.trunc = lambda v: core.trunc(v)
            else:
                dev.mkr = lambda x: float(x)
                dev.mkc = lambda r, i: complex(r, i)
                dev.trunc = lambda v: int(v)

            def div(x, y):
                if not sym:
                    with onp.errstate(all="ignore"):
                        return float(onp.float64(x) / onp.float64(y))
                return x / y
            dev.div = div
            dev.launch(tuple(int(g) for g in grid), block, args)

    def empty(shape, dtype=None):
        a = b.np.zeros(shape, dtype=dtype)
        _UNINIT_IDS[id(a)] = a
        return a

    top = types.ModuleType("cupy")
    top.__path__ = []
    top.RawKernel = RawKernel
    top.empty = empty
    top.ndarray = b.np.ndarray
    top.core = types.ModuleType("cupy.core")
    top.core._scalar = types.ModuleType("cupy.core._scalar")
    top.core._scalar.get_typename = lambda d: TYPENAMES[onp.dtype(d).name]
    top.cuda = types.ModuleType("cupy.cuda")
    compiler = types.ModuleType("cupy.cuda.compiler")
    top.cuda.compiler = compiler

    class CompileException(Exception):
        pass
    compiler.CompileException = CompileException
    try:
        if sym:
            core.SReal.__str__ = sstr
        for n in ("africanus.rime", "africanus.model.coherency"):
            b.mod(n)
        for n in MODS:
            sys.modules.pop(n, None)
        sys.modules.update({
            "cupy": top, "cupy.core": top.core,
            "cupy.core._scalar": top.core._scalar, "cupy.cuda": top.cuda,
            "cupy.cuda.compiler": compiler})
        yield lambda n: b.mod(n)
    finally:
        if sym:
            if oldstr is None:
                del core.SReal.__str__
            else:
                core.SReal.__str__ = oldstr
        _UNINIT_IDS.clear()
        for n, v in old.items():
            sys.modules.pop(n, None)
            if v is not None:
                sys.modules[n] = v
