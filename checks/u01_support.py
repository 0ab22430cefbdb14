"""U01 optional packages, U02 assignment strings, U03 GPU support code."""
import os
import re
import numpy as np
from engine.harness import scenario


# ---------------------------------------------------------------- U01
@scenario("U01", "requirements", bounds="every list of up to 3 requirements "
          "(nothing, present package, missing package, import error, force "
          "tag, something else), inside and outside of a test run")
def r1(b):
    m = b.mod("africanus.util.requirements")
    t = b.mod("africanus.util.testing")
    was = t.in_pytest()
    marked = b.bool("in_pytest")
    n = b.int("n", 0, 3)
    kinds = []
    for i in range(n):
        kinds.append(b.pick("r%d" % i, ["none", "have", "miss", "error",
                                        "force", "junk"]))
    have = ["os", "math", "string"]
    reqs = [{"none": None, "have": have[i],
             "miss": "no_such_package_%d" % i,
             "error": ImportError("broken import %d" % i),
             "force": t.force_missing_pkg_exception,
             "junk": 5 + i}[k] for i, k in enumerate(kinds)]
    ran = []

    def target(x, y=2):
        ran.append((x, y))
        return x, y
    missing = [r for k, r in zip(kinds, reqs) if k == "miss"]
    errors = [r for k, r in zip(kinds, reqs) if k == "error"]
    try:
        t.mark_in_pytest(marked)
        b.same("marker", t.in_pytest(), marked)

        def decorate():
            return m.requires_optional(*reqs)(target)
        if "junk" in kinds:
            b.raises("anything else is refused", TypeError, decorate)
            return
        if errors and not missing:
            b.raises("import errors are raised", ImportError, decorate)
            return
        f = decorate()
        if not missing:
            b.same("the function itself", f is target, True)
            b.same("works", f(1, y=5), (1, 5))
            return
        b.same("name", f.__name__, "target")
        got = None
        try:
            f(1, y=5)
        except BaseException as e:
            got = e
        b.same("never runs", ran, [])
        if marked and "force" not in kinds:
            b.same("skips", type(got).__name__, "Skipped")
        else:
            b.same("raises", isinstance(got, m.MissingPackageException), True)
        msg = str(got)
        b.same("names the function", "target" in msg, True)
        for x in missing:
            b.same("names the package", x in msg, True)
        for i, k in enumerate(kinds):
            if k == "have":
                b.same("only the missing ones",
                       "'%s'" % have[i] in msg, False)
        for e in errors:
            b.same("passes errors on", str(e) in msg, True)
    finally:
        t.mark_in_pytest(was)


@scenario("U01", "marker", bounds="any marker value of five")
def r2(b):
    t = b.mod("africanus.util.testing")
    was = t.in_pytest()
    v = b.pick("v", [True, False, 1, None, "yes"])
    try:
        if isinstance(v, bool):
            t.mark_in_pytest(v)
            b.same("marked", t.in_pytest(), v)
        else:
            b.raises("refused", TypeError, lambda: t.mark_in_pytest(v))
            b.same("unchanged", t.in_pytest(), was)
    finally:
        t.mark_in_pytest(was)


# ---------------------------------------------------------------- U02
LITERALS = [("5.6", 5.6), ("-3", -3), ("[2, 3]", [2, 3]), ("'a;b=1'", "a;b=1"),
            ("None", None), ("(1, 'x')", (1, "x")), ("{'k': 1}", {"k": 1}),
            ("slice(1)", slice(1)), ("slice(1, None, 2)", slice(1, None, 2)),
            ("slice(-1, slice(3))", slice(-1, slice(3)))]


@scenario("U02", "assignments", bounds="1..2 (3 thorough) statements "
          "assigning literals or slices to 1..2 targets, names of 3, tuple "
          "and list targets")
def a1(b):
    f = b.mod("africanus.util.cmdline").parse_python_assigns
    text, want = [], {}
    names = ["x", "beta_2", "Z"]
    for i in range(b.int("n", 1, 2 if b.tier == "quick" else 3)):
        kind = b.pick("kind%d" % i, ["one", "chain", "tuple", "list", "mix"])
        n1 = b.pick("a%d" % i, names if i == 0 else names[:2])
        lits = LITERALS if i == 0 else LITERALS[7:8]
        if kind == "one":
            lit, v = b.pick("v%d" % i, lits)
            text.append("%s=%s" % (n1, lit))
            want[n1] = v
        elif kind == "chain":
            lit, v = b.pick("v%d" % i, lits)
            text.append("%s = Y = %s" % (n1, lit))
            want[n1] = v
            want["Y"] = v
        elif kind == "mix":
            text.append("%s = (p, q) = [7, 8]" % n1)
            want[n1] = [7, 8]
            want.update(p=7, q=8)
        else:
            n2 = b.pick("b%d" % i, names if i == 0 else names[:2])
            fmt = "(%s, %s)" if kind == "tuple" else "[%s, %s]"
            val = b.pick("w%d" % i, [("1, 'two'", (1, "two")),
                                     ("[[], {}]", ([], {}))][:2 - (i > 0)])
            text.append((fmt + " = %s") % (n1, n2, val[0]))
            want[n1] = val[1][0]
            want[n2] = val[1][1]
    got = f(["; ", ";"][len(want) % 2].join(text))
    b.same("values", got, want)
    b.same("types", {k: type(v).__name__ for k, v in got.items()},
           {k: type(v).__name__ for k, v in want.items()})


@scenario("U02", "refusals", bounds="twenty statements that are no literal "
          "assignments, alone or after a good one")
def a2(b):
    f = b.mod("africanus.util.cmdline").parse_python_assigns
    b.same("empty", f(""), {})
    b.same("nothing", f(None), {})
    bad = b.pick("bad", [
        "x", "x + 1", "x += 1", "x: int = 2", "import os", "del x",
        "x = y", "x = a.b", "x = 1 if True else 2", "x = [slice(1)]",
        "x = open('f')", "x = eval('1')", "x = __import__('os')",
        "x = slice(open('f'))", "x = slice(1, step=2)",
        "x = os.system('true')", "(a, b) = 1", "a, b = 1, 2, 3",
        "a, *b = 1, 2", "(a, (b, c)) = 1, (2, 3)", "x[0] = 1", "x.y = 1"])
    text = "ok = 1; " + bad if b.bool("after") else bad
    b.raises("refused", Exception, lambda: f(text))


@scenario("U02", "calls", bounds="calls of 10 builtins with 0..3 (thorough: "
          "4) arguments, literal or themselves calls, with or without "
          "keyword and star arguments")
def a3(b):
    f = b.mod("africanus.util.cmdline").parse_python_assigns
    names = ["slice", "int", "dict", "min", "print", "str", "list", "complex",
             "range", "isinstance"]
    fn = b.pick("f", names)
    n = b.int("n", 0, 3 if b.tier == "quick" else 4)
    args, vals, ok = [], [], fn == "slice"
    for i in range(n):
        k = b.pick("a%d" % i, ["1", "'x'", "slice(2)", "int(3)", "*[1]"][
            :5 if i == 0 else 1 if i > 1 else 4])
        args.append(k)
        ok = ok and k not in ("int(3)", "*[1]")
        vals.append({"1": 1, "'x'": "x", "slice(2)": slice(2)}.get(k))
    kw = b.pick("kw", ["", "base=8", "sep=''", "stop=slice(1)"])
    ok = ok and not kw and 1 <= n <= 3
    text = "v = %s(%s)" % (fn, ", ".join(args + [kw] if kw else args))
    if ok:
        b.same("slice", f(text), {"v": slice(*vals)})
    else:
        b.raises("refused", Exception, lambda: f(text))


# ---------------------------------------------------------------- U03
@scenario("U03", "grids", bounds="any block size up to 1024 and any problem "
          "of up to 5 such blocks in one of three dimensions")
def g1(b):
    f = b.mod("africanus.util.cuda").grids
    dims, blocks = [7, 64, 33], [3, 32, 32]
    ax = b.int("axis", 0, 2)
    blk = b.symint("block", 1, 1024)
    rest = b.symint("rest", 1, 1024)
    b.assume(rest <= blk)
    dims[ax] = b.int("full", 0, 4) * blk + rest
    blocks[ax] = blk
    g = f(tuple(dims), tuple(blocks))
    b.same("three", len(g), 3)
    for d, k, n in zip(dims, blocks, g):
        b.true("every element has a thread", n * k >= d)
        b.true("no block is idle", (n - 1) * k < d)
    b.raises("dims", ValueError, lambda: f(tuple(dims[:2]), tuple(blocks)))
    b.raises("blocks", ValueError, lambda: f(tuple(dims), tuple(blocks) +
                                             (1,)))


CTYPES = {"int8": "char", "uint8": "unsigned char", "int16": "short",
          "uint16": "unsigned short", "int32": "int",
          "uint32": "unsigned int", "float32": "float", "float64": "double",
          "complex64": "float2", "complex128": "double2"}
CFUNCS = {"abs": "fabs", "cos": "cos", "floor": "floor", "max": "fmax",
          "min": "fmin", "rsqrt": "rsqrt", "sin": "sin", "sqrt": "sqrt",
          "sincos": "sincos", "sincospi": "sincospi"}


@scenario("U03", "type_names", bounds="every number type and function name, "
          "as dtype, array or dask array")
def g2(b):
    m = b.mod("africanus.util.cuda")
    name = b.pick("type", sorted(CTYPES) + ["bool", "S4"])
    how = b.pick("how", ["dtype", "numpy", "dask"])
    dt = b.np.dtype(name)
    x = {"dtype": dt, "numpy": np.zeros(2, dt),
         "dask": None}[how]
    if how == "dask":
        import dask.array as da
        x = da.zeros(2, chunks=1, dtype=dt)
    if name in CTYPES:
        b.same("C type", m.cuda_type(x), CTYPES[name])
    else:
        b.raises("no C type", ValueError, lambda: m.cuda_type(x))
    fn = b.pick("fn", sorted(CFUNCS) + ["make2", "nonesuch"])
    if how != "dtype":
        return
    if name in ("float32", "float64") and fn != "nonesuch":
        single = name == "float32"
        want = "make_%s2" % ("float" if single else "double") \
            if fn == "make2" else CFUNCS[fn] + ("f" if single else "")
        b.same("function", m.cuda_function(fn, dt), want)
    else:
        b.raises("no function", ValueError, lambda: m.cuda_function(fn, dt))


@scenario("U03", "register_rotation", bounds="1..8 registers of any "
          "contents, every rotation")
def g3(b):
    """assigning along the cycles with one temporary rotates the registers"""
    f = b.mod("africanus.util.jinja2").register_assign_cycles
    n = b.int("n", 1, 8)
    case = b.int("case", 0, 7)
    b.assume(case < n)
    old = [b.real("r%d" % i) for i in range(n)]
    cycles = f(n, case) if case or b.bool("explicit") else f(n)
    regs = list(old)
    for cycle in cycles:
        start = cycle[0][0]
        tmp = regs[start]
        for dest, src in cycle:
            regs[dest] = tmp if src == start else regs[src]
    for i in range(n):
        b.eq("rotated", regs[i], old[(i - case) % n])
    b.same("each register at most once",
           len({d for c in cycles for d, _ in c}),
           sum(len(c) for c in cycles))
    b.same("no needless move", [p for c in cycles for p in c if
                                p[0] == p[1]], [])


def warp(text, var, nthreads, data):
    """straight line subset of CUDA C the macro produces, in lock step"""
    text = re.sub(r"//[^\n]*", "", text).strip()
    if not text:
        return
    assert text[0] == "{" and text[-1] == "}"
    env = [{"threadIdx.x": t} for t in range(nthreads)]

    def val(e, t, snap):
        e = e.strip()
        q = re.match(r"^(.*?)\?(.*):(.*)$", e)
        if q:
            c, x, y = q.groups()
            return val(x if val(c, t, snap) else y, t, snap)
        q = re.match(r"^__shfl_sync\((\w+), (.*), (\S.*), (\d+)\)$", e)
        if q:
            width = int(q.group(4))
            lane = val(q.group(3), t, snap)
            base = t // width * width
            return val(q.group(2), base + lane % width, snap)
        q = re.match(r"^(\w+)\[(\d+)\](\.[xyzw])?$", e)
        if q:
            ent = snap[q.group(1)][t][int(q.group(2))]
            return ent["xyzw".index(q.group(3)[1])] if q.group(3) else ent
        q = re.match(r"^(tmp)(\.[xyzw])$", e)
        if q:
            return env[t]["tmp"]["xyzw".index(q.group(2)[1])]
        q = re.match(r"^(\w+) == (\d+)$", e)
        if q:
            return env[t][q.group(1)] == int(q.group(2))
        if "__activemask" in e or e.startswith("0x"):
            return 0
        if e in env[t]:
            return env[t][e]
        # integer arithmetic on lane numbers
        names = {k: v for k, v in env[t].items() if isinstance(v, int)}
        return eval(e.replace("threadIdx.x", "threadIdx_x"),
                    {"__builtins__": {}},
                    {k.replace(".", "_"): v for k, v in names.items()})
    for st in text[1:-1].split(";"):
        st = st.strip()
        if not st or "=" not in st:
            continue
        lhs, rhs = [x.strip() for x in re.split(r"(?<![=!<>])=(?!=)", st, 1)]
        lhs = lhs.split(" ")[-1]
        snap = {var: [[list(e) if isinstance(e, list) else e for e in row]
                      for row in data]}
        new = [val(rhs, t, snap) for t in range(nthreads)]
        q = re.match(r"^(\w+)\[(\d+)\](\.[xyzw])?$", lhs)
        for t in range(nthreads):
            if q is None:
                env[t][lhs] = list(new[t]) if isinstance(new[t], list) \
                    else new[t]
            elif q.group(3):
                data[t][int(q.group(2))]["xyzw".index(q.group(3)[1])] = new[t]
            else:
                data[t][int(q.group(2))] = new[t]


@scenario("U03", "warp_transpose", bounds="1, 2, 4 or 8 registers of 1 or 2 "
          "components in two groups of threads, any contents")
def g4(b):
    """the code the template macro generates transposes each group"""
    import jinja2
    jm = b.mod("africanus.util.jinja2")
    cyc = jm.register_assign_cycles
    n = b.pick("n", [1, 2, 4] if b.tier == "quick" else [1, 2, 4, 8])
    two = b.bool("two")
    top = os.path.dirname(os.path.dirname(os.path.abspath(jm.__file__)))
    with open(os.path.join(top, "rime", "cuda", "macros.j2")) as f:
        src = f.read()

    def throw(msg):
        raise ValueError(msg)
    env = jinja2.Environment(extensions=["jinja2.ext.do"])
    env.globals["register_assign_cycles"] = cyc
    env.globals["throw"] = throw

    def render(k, typ):
        return env.from_string(src + "{{ warp_transpose('data', '%s', %d, "
                               "None) }}" % (typ, k)).render()
    nth = 2 * n
    data = [[[b.real("v%d_%d_%d" % (t, i, c)) for c in range(2)] if two else
             b.real("v%d_%d" % (t, i)) for i in range(n)] for t in range(nth)]
    old = [[list(e) if two else e for e in row] for row in data]
    text = render(n, "float2" if two else "float")
    warp(text, "data", nth, data)
    for t in range(nth):
        base = t // n * n
        for i in range(n):
            want = old[base + i][t - base]
            for g, w in (zip(data[t][i], want) if two else
                         [(data[t][i], want)]):
                b.eq("transposed", g, w)
    b.raises("power of two", ValueError, lambda: render(3, "float"))
