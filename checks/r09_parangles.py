"""R09 parallactic angles.  python-casacore (not installed) is replaced by a
measures server that keeps a frame like the real one and computes a made-up
position angle from it; what is decided is how the repository drives it."""
import contextlib
import sys
import threading
import types
from engine.harness import scenario

MODS = ["africanus.rime.parangles_casa", "africanus.rime.parangles",
        "africanus.rime.dask"]
LIBS = ["pyrap", "pyrap.measures", "pyrap.quanta"]
UNITS = {"m": ("length", 1), "km": ("length", 1000), "rad": ("angle", 1),
         "s": ("time", 1), "min": ("time", 60), "h": ("time", 3600),
         "d": ("time", 86400)}


class Q:
    def __init__(self, v, unit):
        if unit not in UNITS:
            raise RuntimeError("unit " + unit)
        self.kind, f = UNITS[unit]
        self.v = v if f == 1 else v * f

    def get_value(self, unit="rad"):
        if unit != "rad":
            raise RuntimeError("unit " + unit)
        return self.v


def _angle(x):
    if isinstance(x, str):
        if not x.endswith("deg"):
            raise RuntimeError("angle " + x)
        return ("deg", float(x[:-3]))
    if x.kind != "angle":
        raise RuntimeError("not an angle")
    return x.v


class Measure:
    def __init__(self, kind, frame, vals):
        self.kind, self.frame, self.vals = kind, frame, vals


def formula(t, p, fc):
    """distinguishes every time, position and direction"""
    return (t * (1 + 2 * p[0] + 3 * p[1] + 5 * p[2]) +
            7 * fc[0] + 11 * t * fc[1])


class Server:
    made = []

    def __init__(self):
        self.owner = threading.get_ident()
        self.now = {}
        Server.made.append(self)

    def _mine(self):
        if threading.get_ident() != self.owner:
            raise RuntimeError("measures server used by another thread")

    def direction(self, rf, v0, v1):
        self._mine()
        return Measure("direction", rf.upper(), (_angle(v0), _angle(v1)))

    def position(self, rf, *v):
        self._mine()
        if rf.lower() != "itrf" or [x.kind for x in v] != ["length"] * 3:
            raise RuntimeError("position")
        return Measure("position", "ITRF", tuple(x.v for x in v))

    def epoch(self, rf, q):
        self._mine()
        if rf.upper() != "UTC" or q.kind != "time":
            raise RuntimeError("epoch")
        return Measure("epoch", "UTC", (q.v,))

    def do_frame(self, m):
        self._mine()
        self.now[m.kind] = m
        return True

    def posangle(self, a, z):
        self._mine()
        if a.frame != "J2000" or z.frame != "AZEL":
            raise RuntimeError("frames")
        if z.vals != (("deg", 0.0), ("deg", 90.0)):
            raise RuntimeError("zenith")
        return Q(formula(self.now["epoch"].vals[0],
                         self.now["position"].vals, a.vals), "rad")


@contextlib.contextmanager
def _casa(b, which="africanus.rime.parangles"):
    old = {n: sys.modules.get(n) for n in MODS + LIBS}
    try:
        top = types.ModuleType("pyrap")
        top.measures = types.ModuleType("pyrap.measures")
        top.measures.measures = Server
        top.quanta = types.ModuleType("pyrap.quanta")
        top.quanta.quantity = Q
        top.__path__ = []
        Server.made = []
        b.mod("africanus.rime")
        for n in MODS:
            sys.modules.pop(n, None)
        sys.modules.update({"pyrap": top, "pyrap.measures": top.measures,
                            "pyrap.quanta": top.quanta})
        yield b.mod(which)
    finally:
        for n, v in old.items():
            sys.modules.pop(n, None)
            if v is not None:
                sys.modules[n] = v


def _want(b, t, p, fc, a):
    return b.np.array([[formula(t[i], p[j], fc) for j in range(a)]
                       for i in range(t.shape[0])])


@scenario("R09", "casa", bounds="1..2 times, 1..3 antennas, any values, called "
          "twice with other values")
def p1(b):
    with _casa(b) as m:
        nt, na = b.int("nt", 1, 2), b.int("na", 1, 3)
        for k in range(2):
            t = b.reals("t%d" % k, (nt,), -9, 9)
            p = b.reals("p%d" % k, (na, 3), -9, 9)
            fc = b.reals("fc%d" % k, (2,), -3, 3)
            kw = {} if b.bool("default%d" % k) else {"backend": "casa"}
            r = m.parallactic_angles(t, p, fc, **kw)
            b.same("shape", r.shape, (nt, na))
            b.eq("angles", r, _want(b, t, p, fc, na))


@scenario("R09", "threads", bounds="two threads asking in either order, twice "
          "each, any values")
def p2(b):
    with _casa(b) as m:
        order = [b.bool("o%d" % i) for i in range(4)]
        t = b.reals("t", (2,), -9, 9)
        p = b.reals("p", (2, 3), -9, 9)
        fc = b.reals("fc", (2,), -3, 3)
        out = []
        jobs, done = [], threading.Event()
        go = threading.Condition()

        def work():
            while True:
                with go:
                    while not jobs:
                        go.wait()
                    j = jobs.pop()
                if j is None:
                    return
                try:
                    out.append(j())
                except Exception as e:
                    out.append(e)
                done.set()
        th = threading.Thread(target=work, daemon=True)
        th.start()

        def ask():
            return m.parallactic_angles(t, p, fc)
        try:
            for o in order:
                if o:
                    done.clear()
                    with go:
                        jobs.append(ask)
                        go.notify()
                    done.wait(60)
                else:
                    out.append(ask())
        finally:
            with go:
                jobs.append(None)
                go.notify()
            th.join(10)
        want = _want(b, t, p, fc, 2)
        for r in out:
            if isinstance(r, Exception):
                raise r
            b.eq("angles", r, want)
        b.same("answers", len(out), 4)


@scenario("R09", "dask", bounds="2..3 times and 2 antennas in any chunks, casa "
          "and test backends, any values")
def p3(b):
    with _casa(b, "africanus.rime.dask") as m:
        nt, na = b.int("nt", 2, 3), 2
        t = b.reals("t", (nt,), -9, 9)
        p = b.reals("p", (na, 3), -9, 9)
        fc = b.reals("fc", (2,), -3, 3)
        tc = b.pick("tc", [(nt,), (1, nt - 1), (nt - 1, 1)])
        ac = b.pick("ac", [(2,), (1, 1)])
        back = b.pick("backend", [None, "casa", "test"])
        kw = {} if back is None else {"backend": back}
        r = m.parallactic_angles(b.dask(t, (tc,)), b.dask(p, (ac, (3,))),
                                 b.dask(fc, ((2,),)), **kw)
        b.same("shape", (r.shape, r.chunks), ((nt, na), (tc, ac)))
        b.eq("angles", b.compute(r), _want(b, t, p, fc, na)
             if back != "test" else t[:, None] * p.sum(axis=1)[None, :])


@scenario("R09", "backends", bounds="any backend of five, any values, field "
          "centres of 1..3 numbers")
def p4(b):
    with _casa(b) as m:
        back = b.pick("backend", ["casa", "test", "none", "", None])
        n = b.int("n", 1, 3)
        t = b.reals("t", (2,), -9, 9)
        p = b.reals("p", (2, 3), -9, 9)
        fc = b.reals("fc", (n,), -3, 3)
        if n != 2 or back not in ("casa", "test"):
            b.raises("refused", ValueError, lambda: m.parallactic_angles(
                t, p, fc, backend=back))
            return
        r = m.parallactic_angles(t, p, fc, backend=back)
        b.eq("angles", r, _want(b, t, p, fc, 2) if back == "casa" else
             b.np.array([[t[i] * (p[j, 0] + p[j, 1] + p[j, 2])
                          for j in range(2)] for i in range(2)]))
