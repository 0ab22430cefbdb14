"""S01 shapes and types, S02 task bookkeeping, G03 cell sizes, P01 GP
kernels, B01 beam axes."""
import itertools
import numpy as np
from engine.harness import scenario
from .common import keepall


# ---------------------------------------------------------------- S01
def greedy(chunks, maxes):
    """groups of consecutive positions, closed as soon as the next position
    would push any dimension over its limit"""
    groups, cur = [], [0]
    for i in range(1, len(chunks[0])):
        over = False
        for c, m in zip(chunks, maxes):
            s = c[i]
            for j in cur:
                s = s + c[j]
            if s > m:
                over = True
        if over:
            groups.append(cur)
            cur = [i]
        else:
            cur = cur + [i]
    return groups + [cur]


def total(c, ix):
    s = 0
    for i in ix:
        s = s + c[i]
    return s


@scenario("S01", "aggregate_one", bounds="1..5 chunks of any size 1..1000, "
          "any limit")
def s1(b):
    f = b.mod("africanus.util.shapes").aggregate_chunks
    n = b.int("n", 1, 4 if b.tier == "quick" else 5)
    ch = tuple(b.symint("c%d" % i, 1, 1000) for i in range(n))
    mx = b.symint("max", 1, 3000)
    form = b.bool("as_sequence")
    r = f((ch,), (mx,)) if form else f(ch, mx)
    want = [total(ch, g) for g in greedy([ch], [mx])]
    b.same("number", len(r), len(want))
    b.eq("sizes", b.farr(list(r), "float64"), b.farr(want, "float64"))
    b.eq("total kept", total(r, range(len(r))), total(ch, range(n)))


@scenario("S01", "aggregate_many", bounds="2..3 dimensions of 1..3 chunks of "
          "any size 1..1000, any limits")
def s2(b):
    f = b.mod("africanus.util.shapes").aggregate_chunks
    nd = b.pick("nd", [2, 3])
    n = b.int("n", 1, 3)
    ch = tuple(tuple(b.symint("c%d_%d" % (d, i), 1, 1000) for i in range(n))
               for d in range(nd))
    mx = tuple(b.symint("max%d" % d, 1, 3000) for d in range(nd))
    r = f(ch, mx)
    gs = greedy(ch, mx)
    b.same("dims", len(r), nd)
    for d in range(nd):
        b.same("number", len(r[d]), len(gs))
        b.eq("sizes", b.farr(list(r[d]), "float64"),
             b.farr([total(ch[d], g) for g in gs], "float64"))


@scenario("S01", "aggregate_rejects", bounds="mismatched dimension or chunk "
          "counts up to 3")
def s3(b):
    f = b.mod("africanus.util.shapes").aggregate_chunks
    k, m = b.int("k", 1, 3), b.int("m", 1, 3)
    a, c = b.int("a", 1, 3), b.int("c", 1, 3)
    ch = (tuple([1] * a), tuple([1] * c), tuple([1] * a))[:k]
    if k != m or (k > 1 and a != c):
        b.raises("mismatch", ValueError, lambda: f(ch, (5,) * m))
    else:
        f(ch, (5,) * m)
        b.true("accepted", True)


@scenario("S01", "corr_shape", bounds="any number of correlations 0..20 and "
          "shape kind")
def s4(b):
    f = b.mod("africanus.util.shapes").corr_shape
    n = b.symint("n", 0, 20)
    kind = b.pick("kind", ["flat", "matrix", "Matrix", "other"])
    if kind == "flat":
        r = f(n, kind)
        b.same("1 dim", len(r), 1)
        b.eq("flat", r[0], n)
    elif kind == "matrix":
        if n == 1 or n == 2:
            r = f(n, kind)
            b.same("1 dim", len(r), 1)
            b.eq("vector", r[0], n)
        elif n == 4:
            b.same("2x2", tuple(f(n, kind)), (2, 2))
        else:
            b.raises("ncorr", ValueError, lambda: f(n, kind))
    else:
        b.raises("kind", ValueError, lambda: f(n, kind))


@scenario("S01", "complex_type", bounds="1..3 numpy, dask or compiled-array "
          "types out of 9 element types")
def s5(b):
    m = b.mod("africanus.util.type_inference")
    names = ["float32", "float64", "complex64", "complex128", "int32",
             "int64", "int8", "bool", "uint16"]
    k = b.int("k", 1, 2 if b.tier == "quick" else 3)
    dts = [b.pick("d%d" % i, names) for i in range(k)]
    how = b.pick("how", ["numpy", "dask", "numba"])
    import numba
    if how == "numba":
        args = [numba.types.Array(numba.from_dtype(np.dtype(d)), 1, "C")
                for d in dts]
    else:
        args = [np.zeros(2, dtype=d) for d in dts]
        if how == "dask":
            args = [b.dask(a, (2,)) for a in args]
    r = np.dtype(m.infer_complex_dtype(*args))
    double = any(d in ("float64", "complex128", "int32", "int64")
                 for d in dts)
    b.same("precision", r.name, "complex128" if double else "complex64")


# ---------------------------------------------------------------- S02
@scenario("S02", "memoize", bounds="histories of 4 calls over 3 keys "
          "(incl. keys of equal hash)")
def u1(b):
    m = b.mod("africanus.util.code")
    made = []

    def key(x, y):
        return x

    def build(x, y):
        made.append((x, y))
        return ("made", len(made))
    fn = m.memoize_on_key(key)(build)
    other = m.memoize_on_key(key)(lambda x, y: "other")
    first = {}
    for i in range(4):
        x, y = b.int("x%d" % i, -2, 0), b.int("y%d" % i, 0, 1)
        r = fn(x, y)
        if x not in first:
            b.same("built from these arguments", made[-1], (x, y))
            first[x] = r
        b.same("same key, same object", r, first[x])
        b.same("built once per key", len(made), len(first))
    b.same("caches are separate", other(0, 0), "other")


@scenario("S02", "memoize_failures", bounds="histories of 4 calls over 2 keys, "
          "each evaluation failing or not, keyword or positional arguments")
def u1b(b):
    m = b.mod("africanus.util.code")
    made = []

    def build(x, y=0):
        "builds"
        if b.bool("fails%d" % len(made)):
            made.append(None)
            raise KeyError(x)
        made.append(object())
        return made[-1]
    fn = m.memoize_on_key(lambda x, y=0: x)(build)
    b.same("name", (fn.__name__, fn.__doc__), ("build", "builds"))
    have = {}
    for i in range(4):
        x = b.int("x%d" % i, 0, 1)
        n = len(made)
        try:
            r = fn(x, y=i) if b.bool("kw%d" % i) else fn(x, i)
        except KeyError:
            b.same("fails only while evaluating", (len(made), made[-1]),
                   (n + 1, None))
            b.same("not after a result", x in have, False)
            continue
        b.same("evaluates unless known", len(made) - n, int(x not in have))
        if x in have:
            b.same("same object", r is have[x], True)
        else:
            b.same("the result", r is made[-1], True)
        have[x] = r


@scenario("S02", "memoize_threads", bounds="a second thread asks for the same "
          "or another key while the first one evaluates")
def u1c(b):
    import threading
    m = b.mod("africanus.util.code")
    made, got, threads = [], [], []
    k = b.int("second", 0, 1)

    def build(x):
        if not threads:
            t = threading.Thread(target=lambda: got.append(fn(k)),
                                 daemon=True)
            threads.append(t)
            t.start()
            t.join(0.1)
        made.append((x, object()))
        return made[-1]
    fn = m.memoize_on_key(lambda x: x)(build)
    r = fn(0)
    threads[0].join(20)
    b.same("finished", len(got), 1)
    b.same("once per key", sorted(x for x, _ in made),
           [0] if k == 0 else [0, 1])
    b.same("the same result for both", got[0] is fn(k), True)
    b.same("first", r is fn(0), True)


@scenario("S02", "singletons", bounds="histories of 4 requests over 2 classes, "
          "a second thread asking while the first instance is made")
def u1d(b):
    import threading
    m = b.mod("africanus.util.code")
    made, got, threads = [], [], []
    race = b.bool("race")

    def init(self):
        if race and not threads:
            t = threading.Thread(
                target=lambda: got.append(type(self).instance()), daemon=True)
            threads.append(t)
            t.start()
            t.join(0.1)
        made.append(self)
    A = type("A", (m.SingletonMixin,), {"__init__": init})
    B = type("B", (m.SingletonMixin,), {"__init__": init})
    seen = {}
    for i in range(4):
        c = B if b.bool("c%d" % i) else A
        x = c.instance()
        b.same("class", type(x) is c, True)
        b.same("same", seen.setdefault(c, x) is x, True)
    for t in threads:
        t.join(20)
    b.same("one each", len(made), len(seen))
    for g in got:
        b.same("same for both", g is seen[type(g)], True)


@scenario("S02", "task_bookkeeping", bounds="every interleaving of starting "
          "and finishing 3 tasks of 2 kinds at any increasing times")
def u2(b):
    m = b.mod("africanus.util.dask_util")
    pb = m.EstimatingProgressBar(out=None)
    keys = [("a", 0), ("a", 1), b.pick("third", [("b", 0), "b", b"b"])]
    clock = [b.q(0)]
    # the thread is a display only: not started
    real_thread = m.Thread
    real_timer = m.default_timer

    class NoThread:
        def __init__(self, *a, **k):
            pass

        def start(self):
            pass
    m.Thread = NoThread
    m.default_timer = lambda: clock[0]
    try:
        pb._start({k: None for k in keys})
        started, done, spent = {}, set(), {"a": b.q(0), "b": b.q(0)}
        for step in range(6):
            opts = [("s", k) for k in keys if k not in started] + \
                [("f", k) for k in keys if k in started and k not in done]
            ev, k = b.pick("ev%d" % step, opts) if len(opts) > 1 else opts[0]
            clock[0] = clock[0] + b.real("dt%d" % step, 0, 10)
            if ev == "s":
                started[k] = clock[0]
                pb._pretask(k, {}, {})
            else:
                pb._posttask(k, None, {}, {}, 0)
                done.add(k)
                kind = "a" if k[0] == "a" else "b"
                spent[kind] = spent[kind] + clock[0] - started[k]
            td = pb.task_data
            b.same("kinds", sorted(td), ["a", "b"])
            b.same("totals", (td["a"].total, td["b"].total), (2, 1))
            b.same("completed", (td["a"].completed, td["b"].completed),
                   (len([x for x in done if x[0] == "a"]),
                    len([x for x in done if x[0] != "a"])))
            b.eq("time", td["a"].time_sum, spent["a"])
            b.eq("time", td["b"].time_sum, spent["b"])
        s = td["a"] + td["b"]
        b.same("sum", (s.total, s.completed), (3, 3))
        b.eq("sum time", s.time_sum, spent["a"] + spent["b"])
        pb._finish({}, {}, False)
        b.same("forgotten", (len(pb.task_data), len(pb.task_start)), (0, 0))
        b.true("stopped", not pb.running.is_set())
    finally:
        m.Thread = real_thread
        m.default_timer = real_timer


@scenario("S02", "task_sums", bounds="any counts and durations")
def u5b(b):
    T = b.mod("africanus.util.dask_util").TaskData
    n = [b.symint("n%d" % i, 0, 9) for i in range(4)]
    d = b.reals("d", (2,), 0, 9)
    x, y = T(n[0], n[1], d[0]), T(n[2], n[3], d[1])
    z = x + y
    b.true("+ leaves its terms", b.all(
        x.completed == n[0], x.total == n[1], y.completed == n[2],
        y.total == n[3]))
    w = x
    w += y
    b.true("+= is in place", w is x)
    for r in (z, x):
        b.true("counts", b.all(r.completed == n[0] + n[2],
                               r.total == n[1] + n[3]))
        b.eq("durations", r.time_sum, d[0] + d[1])
    e = T()
    b.same("empty", (e.completed, e.total, e.time_sum), (0, 0, 0.0))


@scenario("S02", "format_time", bounds="any whole number of seconds up to 10 "
          "weeks: the leading two units, zero units dropped")
def u3(b):
    f = b.mod("africanus.util.dask_util").format_time
    unit = b.pick("unit", ["w", "d", "h", "m", "s"])
    hi = {"w": 10, "d": 6, "h": 23, "m": 59, "s": 59}[unit]
    big = b.pick("big", sorted({1, 2, hi // 2, hi} if unit != "s"
                               else {0, 1, 9, 10, 59}))
    size = {"w": 604800, "d": 86400, "h": 3600, "m": 60, "s": 1}[unit]
    sub = {"w": ("d", 86400, 6), "d": ("h", 3600, 23), "h": ("m", 60, 59),
           "m": ("s", 1, 59), "s": None}[unit]
    if sub is None:
        b.same("text", f(big), "%5ds" % big)
        return
    small = b.pick("small", [0, 1, sub[2]])
    rest = b.pick("rest", [0, sub[1] - 1, sub[1] // 2])
    b.same("text", f(big * size + small * sub[1] + rest),
           "%2d%s%2d%s" % (big, unit, small, sub[0]))


@scenario("S02", "estimate", bounds="2 kinds of 1..3 tasks, every number "
          "completed, any durations, elapsed time and previous estimate")
def u4(b):
    m = b.mod("africanus.util.dask_util")

    class Out:
        def __init__(self):
            self.text = []

        def write(self, t):
            self.text.append(t)

        def flush(self):
            pass
    out = Out()
    width = 8
    pb = m.EstimatingProgressBar(out=out, width=width)
    real_thread = m.Thread
    m.Thread = b_nothread
    try:
        na, nb = b.pick("n", [(1, 1), (2, 1), (1, 3)])
        pb._start({("ab"[i >= na], i): None for i in range(na + nb)})
    finally:
        m.Thread = real_thread
    ca, cb = b.int("ca", 0, na), b.int("cb", 0, nb)
    spent = []
    for kind, c in (("a", ca), ("b", cb)):
        t = b.q(0)
        if c:
            t = b.real("t" + kind, b_frac(1, 100), 100)
            pb.task_data[kind].completed = c
            pb.task_data[kind].time_sum = t
        spent.append(t)
    late = b.bool("late")
    if late:
        # the bar itself is text: whole seconds
        elapsed = b.pick("elapsed", [10, 45, 100])
        ratio = b.pick("ratio", [1, 2, 4])
    else:
        elapsed = b.real("elapsed", b_frac(1, 100), b_frac(99, 10))
    prev = b.int("prev", 0, na + nb)
    done = ca + cb
    b.assume(prev <= done)
    if late:
        pest = elapsed * ratio
        if prev != done:
            # one kind finished, the other as it stands
            b.assume(ca == 0 or cb == 0)
    else:
        pest = b.real("pest", 0, 1000)
    got = m.update_bar(elapsed, prev, pest, pb)
    b.same("completed", got[0], done)
    if prev == done:
        want = pest
    else:
        tot = sum((s * n / c for s, n, c in zip(spent, (na, nb), (ca, cb))
                   if c), b.q(0))
        want = tot * elapsed / (spent[0] + spent[1])
    b.eq("estimate", got[1], want)
    text = "".join(out.text)
    b.true("one line", text.startswith("\r[") and "\n" not in text)
    if not late:
        b.true("no fraction yet", "| 0% Complete" in text)
        return
    if prev == done:
        frac = (1, ratio)
    else:
        n, c = (na, ca) if ca else (nb, cb)
        frac = (c, n)
    bar = "#" * (width * frac[0] // frac[1])
    b.true("bar", text.startswith("\r[%s] |" % bar.ljust(width)))
    b.true("percentage", "| %d%% Complete" % (100 * frac[0] // frac[1])
           in text)
    b.true("elapsed", ("| %s / ~" % m.format_time(elapsed)) in text)
    est = elapsed * frac[1] // frac[0]
    if prev == done:
        b.true("estimated", text.endswith("~" + m.format_time(est)))


@scenario("S02", "display_loop", bounds="4 refreshes, tasks completing "
          "between any of them, any minimum time")
def u5(b):
    """an estimate stays until another task completes"""
    m = b.mod("africanus.util.dask_util")
    out = []

    class Out:
        def write(self, t):
            out.append(t)

        def flush(self):
            pass
    minimum = b.pick("minimum", [0, 60, 119])
    pb = m.EstimatingProgressBar(out=Out(), minimum=minimum, dt=0)
    real = m.Thread, m.default_timer
    steps = [b.bool("done%d" % i) for i in range(4)]
    calls = [0]

    def timer():
        k = calls[0]
        calls[0] = k + 1
        if 1 <= k <= 4 and steps[k - 1]:
            pb.task_data["a"].completed += 1
            pb.task_data["a"].time_sum += 2.0
        if k >= 4:
            pb.running.clear()
        return 60 * k
    m.Thread, m.default_timer = b_nothread, timer
    try:
        pb._start({("a", i): None for i in range(4)})
        calls[0] = 0
        m.timer_func(pb)
    finally:
        m.Thread, m.default_timer = real
    want, last = [], (0, None)
    for k in range(1, 5):
        done = sum(steps[:k])
        if 60 * k <= minimum:
            continue
        if done != last[0]:
            last = (done, 240 * k // done)
        want.append((m.format_time(60 * k), "???" if last[1] is None else
                     m.format_time(last[1])))
    got = [tuple(t.rsplit("| ", 1)[1].split(" / ~")) for t in out]
    b.same("elapsed and estimate", got, want)


@scenario("S02", "finish_while_displaying", bounds="the computation ends at "
          "any point of a refresh over 1..3 kinds of tasks")
def u6(b):
    import threading
    m = b.mod("africanus.util.dask_util")
    pb = m.EstimatingProgressBar(out=None)
    real = m.Thread
    m.Thread = b_nothread
    n = b.int("kinds", 1, 3)
    at = b.int("at", 0, 3)
    b.assume(at <= n)
    try:
        pb._start({("k%d" % i, 0): None for i in range(n)})
    finally:
        m.Thread = real
    other = threading.Thread(target=pb._finish, args=({}, {}, False))

    class Data(type(pb.task_data)):
        """the other thread gets to run at step `at`"""
        def items(self):
            for i, kv in enumerate(super().items()):
                if i == at:
                    other.start()
                    other.join(0.3)
                yield kv

        def values(self):
            return (v for _, v in self.items())
    data = Data(m.TaskData)
    data.update(pb.task_data)
    pb.task_data = data
    res = m.update_bar(5.0, 0, 0.0, pb)
    if not other.ident:
        other.start()
    other.join()
    b.same("completed", res[0], 0)
    b.same("forgotten", (len(pb.task_data), len(pb.task_start)), (0, 0))
    b.true("stopped", not pb.running.is_set())


class b_nothread:
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass


# ---------------------------------------------------------------- G03
def vals(b, tag, kind):
    if kind == "scalar":
        v = b.real(tag, -1000, 1000)
        b.assume(b.any(v > b.q(1, 100), v < -b.q(1, 100)))
        return v, [v]
    a = b.reals(tag, (kind,), lo=-1000, hi=1000)
    for i in range(kind):
        b.assume(b.any(a[i] > b.q(1, 100), a[i] < -b.q(1, 100)))
    return a, [a[i] for i in range(kind)]


@scenario("G03", "cell_size", bounds="scalar or 1..3 baselines and 1..2 "
          "wavelengths of any value, any factor, optional grid sizes")
def c1(b):
    f = b.mod("africanus.gridding.util").estimate_cell_size
    uk = b.pick("uk", ["scalar", 1, 2])
    vk = b.pick("vk", ["scalar", 2])
    u, us = vals(b, "u", uk)
    v, vs = vals(b, "v", vk)
    wk = b.pick("wk", ["scalar", 2])
    if wk == "scalar":
        w = b.real("w", b_frac(1, 100), 10)
        ws = [w]
    else:
        w = b.reals("w", (2,), lo=b_frac(1, 100), hi=10)
        ws = [w[0], w[1]]
    fac = b.real("factor", 1, 10)
    grid = b.pick("grid", [None, (b.symint("ny", 1, 10000), None),
                           (None, b.symint("nx", 1, 10000))])
    au = [abs(x) for x in us]
    av = [abs(x) for x in vs]

    def mx(a):
        m = a[0]
        for x in a[1:]:
            m = x if x > m else m
        return m

    def mn(a):
        m = a[0]
        for x in a[1:]:
            m = x if x < m else m
        return m
    wm = mn(ws)
    cu = wm / (2 * fac * mx(au))
    cv = wm / (2 * fac * mx(av))
    kw = {}
    bad = False
    if grid is not None:
        if grid[0] is not None:
            kw["ny"] = grid[0]
            bad = b.known_true(cu * grid[0] < wm / mn(au))
        else:
            kw["nx"] = grid[1]
            bad = b.known_true(cv * grid[1] < wm / mn(av))
    if bad:
        b.raises("field smaller than the largest angular scale", ValueError,
                 lambda: f(u, v, w, factor=fac, **kw))
        return
    r = f(u, v, w, factor=fac, **kw)
    b.same("shape", r.shape, (2,))
    b.eq("u cell", r[0], cu * 180 / b.pi * 3600)
    b.eq("v cell", r[1], cv * 180 / b.pi * 3600)


def b_frac(p, q):
    from fractions import Fraction
    return Fraction(p, q)


@scenario("G03", "defaults_and_types", bounds="default factor 3; wrong types "
          "are refused")
def c2(b):
    f = b.mod("africanus.gridding.util").estimate_cell_size
    u, us = vals(b, "u", 1)
    w = b.real("w", b_frac(1, 100), 10)
    r = f(u, u, w)
    au = abs(us[0])
    b.eq("default factor", r[0], w / (6 * au) * 180 / b.pi * 3600)
    b.eq("same for v", r[0], r[1])
    for k in range(3):
        args = [u, u, w]
        args[k] = b.pick("bad%d" % k, ["x", None, [1.0]])
        b.raises("type", TypeError, lambda: f(*args))


# ---------------------------------------------------------------- P01
@scenario("P01", "distances", bounds="1..3 by 1..3 points in 1..3 dimensions "
          "(flat vectors too), float or integer")
def p1(b):
    f = b.mod("africanus.gps.utils").abs_diff
    n, m, d = b.pick("dims", [(2, 3, 1), (3, 2, 2), (1, 2, 3), (2, 2, 0),
                              (3, 1, 0)])
    flat = d == 0
    d = d or 1
    tx, ty = b.pick("types", [("f", "f"), ("f", "i"), ("i", "f"),
                              ("i", "i")])
    def gen(t, name, shape):
        if t == "f":
            return b.reals(name, shape, lo=-50, hi=50)
        k = int(np.prod(shape))
        return np.array([(7 * i * i - 5) % 11 - 4 for i in range(k)]).reshape(
            shape)
    x = gen(tx, "x", (n,) if flat else (n, d))
    y = gen(ty, "y", (m,) if flat else (m, d))
    ok = keepall(b, x=x, y=y)
    r = f(x, y)
    b.same("shape", r.shape, (n, m))
    X, Y = x.reshape(n, d), y.reshape(m, d)
    for i in range(n):
        for j in range(m):
            s = 0
            for k in range(d):
                s = s + (X[i, k] - Y[j, k]) * (X[i, k] - Y[j, k])
            b.eq("squared distance", r[i, j] * r[i, j], s)
            b.true("non-negative", r[i, j] >= 0)
    ok()


@scenario("P01", "covariance", bounds="2x2 and 1x3 points in 1..2 dimensions, "
          "any variance and length scale")
def p2(b):
    k = b.mod("africanus.gps.kernels")
    n, m, d = b.pick("dims", [(2, 2, 1), (1, 3, 2)])
    x = b.reals("x", (n, d), lo=-5, hi=5)
    y = b.reals("y", (m, d), lo=-5, hi=5)
    sf = b.real("sf", -5, 5)
    ell = b.real("l", b_frac(1, 2), 5)
    K = k.exponential_squared(x, y, sf, ell)
    b.same("shape", K.shape, (n, m))
    for i in range(n):
        for j in range(m):
            s = 0
            for t in range(d):
                s = s + (x[i, t] - y[j, t]) * (x[i, t] - y[j, t])
            b.eq("value", K[i, j], sf * sf * b.np.exp(
                -s / (2 * ell * ell)))
    Kt = k.exponential_squared(y, x, sf, ell)
    b.eq("symmetric", Kt, K.T)
    D = k.exponential_squared(x, x, sf, ell)
    for i in range(n):
        b.eq("variance on the diagonal", D[i, i], sf * sf)


@scenario("P01", "spectrum_refusals", bounds="2 or 3 points in 1 or 2 "
          "dimensions: power spectrum only for identical one dimensional "
          "inputs")
def p3(b):
    k = b.mod("africanus.gps.kernels")
    d = b.pick("d", [1, 2])
    x = b.reals("x", (3, d), lo=-5, hi=5)
    y = b.reals("y", (3, d), lo=-5, hi=5)

    def run():
        return k.exponential_squared(x, y, 1.0, 1.0, pspec=True)
    if d == 2:
        b.raises("dimensions", NotImplementedError, run)
        return
    b.assume(b.any(*[b.any(x[i, 0] > y[i, 0], x[i, 0] < y[i, 0])
                     for i in range(3)]))
    b.raises("different inputs", ValueError, run)


@scenario("P01", "spectrum", bounds="2..5 equally or unequally spaced points "
          "of any spacing, any variance and length scale")
def p4(b):
    """Fourier transform of the covariance at the FFT's frequencies"""
    k = b.mod("africanus.gps.kernels")
    n = b.int("n", 2, 5)
    x0, dx = b.real("x0", -5, 5), b.real("dx", b_frac(1, 10), 5)
    pts = [x0 + i * dx for i in range(n)]
    off = 0
    if n > 2 and b.bool("irregular"):
        off = b.int("off", 1, n - 1)
        e = b.real("e", b_frac(1, 10), 5)
        # moving the second point of three or more is irregular, too
        pts[off] = pts[off] + e
    x = b.farr([[p] for p in pts], "float64")
    sf, ell = b.real("sf", b_frac(1, 10), 5), b.real("ell", b_frac(1, 10), 5)

    def run():
        return k.exponential_squared(x, x, sf, ell, pspec=True)
    if off:
        b.raises("irregular", ValueError, run)
        return
    r = run()
    b.same("shape", r.shape, (n,))
    pi = b.pi
    for i in range(n):
        s = (i - n // 2) / (n * dx)
        b.eq("value", r[i], b.np.sqrt(2 * pi) * ell * sf * sf *
             b.np.exp(-2 * pi * pi * ell * ell * s * s))


# ---------------------------------------------------------------- B01
class Hdr(dict):
    pass


def header(b, order, names, unit, irregular, n=2):
    h = Hdr(NAXIS=len(order))
    want = {}
    for k, ax in enumerate(order, 1):
        cr, cd = b.real("val" + ax, -10, 10), b.real("inc" + ax, -2, 2)
        px = b.real("pix" + ax, 0, 4)
        h["NAXIS%d" % k] = n
        h["CTYPE%d" % k] = names[ax]
        h["CRVAL%d" % k] = cr
        h["CRPIX%d" % k] = px
        h["CDELT%d" % k] = cd
        if ax != "F" and unit is not None:
            h["CUNIT%d" % k] = unit
        g = [(i + 1 - px) * cd + cr for i in range(n)]
        if ax != "F" and unit is not None and unit.strip().upper() == "DEG":
            g = [v * b.pi / 180 for v in g]
        if ax == "F" and irregular:
            g = [b.real("gf%d" % i, 0, 10) for i in range(n)]
            for i in range(n):
                h["GFREQ%d" % (i + 1)] = g[i]
            if irregular == "partial":
                del h["GFREQ%d" % n]
                g = [(i + 1 - px) * cd + cr for i in range(n)]
        want[ax] = (k, g)
    return h, want


@scenario("B01", "grids", bounds="3 axes in every order, 2 samples each, any "
          "reference value/pixel/increment, axis names, units, sign options, "
          "irregular frequencies")
def b1(b):
    f = b.mod("africanus.util.beams").beam_grids
    order = b.pick("order", list(itertools.permutations("LMF")))
    ln, mn = b.pick("names", [("L", "M"), ("X", "Y"), ("px", "py"),
                              ("l", "Y "), ("PX", "m")])
    unit = b.pick("unit", ["DEG", "deg ", "RAD", None])
    irr = b.pick("irr", [None, "full", "partial"])
    h, want = header(b, order, dict(L=ln, M=mn, F="FREQ"), unit, irr)
    ls, ms = b.pick("signs", [(None, None), ("-L", "M"), ("X", "-Y"),
                              ("-X", None)])
    (la, lg), (ma, mg), (fa, fg) = f(h, ls, ms)
    sl = -1 if ls and ls[0] == "-" else 1
    sm = -1 if ms and ms[0] == "-" else 1
    b.same("axes", (la, ma, fa), (want["L"][0], want["M"][0], want["F"][0]))
    b.eq("l grid", lg, b.farr([v * sl for v in want["L"][1]], "float64"))
    b.eq("m grid", mg, b.farr([v * sm for v in want["M"][1]], "float64"))
    b.eq("frequencies", b.farr(list(fg), "float64"),
         b.farr(want["F"][1], "float64"))


@scenario("B01", "extra_axes", bounds="4 axes, a foreign axis in any "
          "position; sizes 1..3")
def b2(b):
    f = b.mod("africanus.util.beams").beam_grids
    pos = b.int("pos", 0, 3)
    n = b.int("n", 1, 3)
    order = list("LMF")
    order.insert(pos, "S")
    h, want = header(b, order, dict(L="L", M="M", F="FREQ", S="STOKES"),
                     "DEG", None, n)
    (la, lg), (ma, mg), (fa, fg) = f(h)
    b.same("axes", (la, ma, fa), (want["L"][0], want["M"][0], want["F"][0]))
    b.eq("l grid", lg, b.farr(want["L"][1], "float64"))
    b.eq("m grid", mg, b.farr(want["M"][1], "float64"))
    b.eq("freq", fg, b.farr(want["F"][1], "float64"))


@scenario("B01", "lengths_and_defaults", bounds="axes of different lengths "
          "1..3; reference value and increment present or absent on each "
          "axis; header left unchanged")
def b2b(b):
    f = b.mod("africanus.util.beams").beam_grids
    order = b.pick("order", ["LMF", "FML", "MFL"])
    lens = dict(zip("LMF", b.pick("lens", [(1, 2, 3), (3, 1, 2), (2, 3, 1)])))
    novals = b.pick("noval", ["", "L", "F", "M"])
    noinc = b.pick("noinc", ["", "L", "F", "M"])
    unit = b.pick("unit", ["DEG", "RAD"])
    h, want = header(b, order, dict(L="L", M="M", F="FREQ"), unit, None)
    s = b.pi / 180 if unit == "DEG" else 1
    for k, ax in enumerate(order, 1):
        h["NAXIS%d" % k] = lens[ax]
        cr, cd, px = (h["%s%d" % (x, k)] for x in ("CRVAL", "CDELT", "CRPIX"))
        if ax in novals:
            del h["CRVAL%d" % k]
            cr = 0
        if ax in noinc:
            del h["CDELT%d" % k]
            cd = 1
        sc = s if ax != "F" else 1
        want[ax] = (k, [((i + 1 - px) * cd + cr) * sc
                        for i in range(lens[ax])])
    keep = dict(h)
    for g, ax in zip(f(h), "LMF"):
        b.same("axis", g[0], want[ax][0])
        b.eq("grid " + ax, g[1], b.farr(want[ax][1], "float64"))
    b.same("header keys", sorted(h), sorted(keep))
    b.true("header untouched", all(h[k] is keep[k] for k in keep))


@scenario("B01", "missing_axes", bounds="each required axis missing")
def b3(b):
    f = b.mod("africanus.util.beams").beam_grids
    miss = b.pick("miss", ["L", "M", "F"])
    h, _ = header(b, "LMF", dict(dict(L="L", M="M", F="FREQ"),
                                 **{miss: "STOKES"}), "DEG", None)
    b.raises("missing axis", ValueError, lambda: f(h))


@scenario("B01", "filenames", bounds="every non-empty ordered choice of up "
          "to 3 of 12 correlation/Stokes ids; 5 schemas")
def b4(b):
    f = b.mod("africanus.util.beams").beam_filenames
    ids = {1: "i", 2: "q", 3: "u", 4: "v", 5: "rr", 6: "rl", 7: "lr",
           8: "ll", 9: "xx", 10: "xy", 11: "yx", 12: "yy"}
    k = b.int("k", 1, 2)
    cs = []
    for i in range(k):
        cs.append(b.pick("c%d" % i, [c for c in ids if c not in cs]))
    sch = b.pick("schema", ["b_$(corr)_$(reim).fits", "$(CORR)/$(REIM)$$x",
                            "$corr-$REIM", "$(reim)_$(CORR)_v2",
                            "$(corr)$(corr)$(reim)"])
    r = f(sch, cs)
    b.same("keys in order", list(r), [ids[c] for c in cs])
    for c in cs:
        n = ids[c]
        want = []
        for ri in ("re", "im"):
            want.append({"b": "b_%s_%s.fits" % (n, ri),
                         "$(C": "%s/%s$x" % (n.upper(), ri.upper()),
                         "$co": "%s-%s" % (n, ri.upper()),
                         "$(r": "%s_%s_v2" % (ri, n.upper()),
                         "$(c": "%s%s%s" % (n, n, ri)}
                        [next(p for p in ("b", "$(C", "$co", "$(r", "$(c")
                              if sch.startswith(p))])
        b.same("pair", list(r[n]), want)


@scenario("B01", "filename_errors", bounds="unknown ids and placeholders")
def b5(b):
    f = b.mod("africanus.util.beams").beam_filenames
    bad = b.pick("bad", [-1, 999, 40])
    b.raises("unknown id", ValueError,
             lambda: f("b_$(corr)_$(reim).fits", [9, bad]))
    sch = b.pick("sch", ["b_$(pol)_$(reim)", "$(corr)_$(x)"])
    b.raises("unknown placeholder", ValueError, lambda: f(sch, [9]))
