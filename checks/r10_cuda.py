"""R10 the GPU kernels compute what the CPU functions are defined to."""
from fractions import Fraction

from engine.harness import scenario
from checks.cudasim import cupy
from checks.common import keepall
from checks.r01_predict import COMBOS, inputs, ref
from checks.r05_beam import some_beam


def lm_small(b, n):
    lm = b.reals("lm", (n, 2), -0.7, 0.7)
    for i in range(n):
        b.assume(lm[i, 0] * lm[i, 0] + lm[i, 1] * lm[i, 1] < 1)
    return lm


@scenario("R10", "phase", bounds="1..2 sources, rows and channels across the "
          "edge of a thread block, both precisions, any values")
def g1(b):
    ns = b.int("ns", 1, 2)
    nr, nc = b.pick("size", [(1, 1), (2, 3), (17, 1), (1, 17), (33, 2)])
    t = b.pick("type", ["float64", "float32"])
    if nr * nc > 20 and (ns == 2 or t == "float64"):
        ns = 1
    lm = lm_small(b, ns).astype(t)
    uvw = b.reals("uvw", (nr, 3), -100, 100).astype(t)
    fr = b.reals("fr", (nc,), 1, 9).astype(t)
    with cupy(b) as load:
        m = load("africanus.rime.cuda.phase")
        keep = keepall(b, lm=lm, uvw=uvw, fr=fr)
        r = m.phase_delay(lm, uvw, fr)
        want = b.mod("africanus.rime.phase").phase_delay(lm, uvw, fr)
        b.same("shape", (r.shape, r.dtype), (want.shape, want.dtype))
        b.eq("phase", r, want)
        keep()


@scenario("R10", "feeds", bounds="up to 2x2 angles and 513 angles (two thread "
          "blocks), both feed types and precisions, any angles")
def g2(b):
    feed = b.pick("feed", ["linear", "circular", None])
    t = b.pick("type", ["float64", "float32"])
    shape = b.pick("shape", [(1,), (2, 2), (513,)])
    if shape == (513,):
        two = b.reals("pa", (2,))
        pa = b.np.array([two[i % 2] for i in range(513)])
    else:
        pa = b.reals("pa", shape)
    pa = pa.astype(t)
    with cupy(b) as load:
        m = load("africanus.rime.cuda.feeds")
        r = m.feed_rotation(pa) if feed is None else m.feed_rotation(pa, feed)
        want = b.mod("africanus.rime.feeds").feed_rotation(
            pa, feed or "linear")
        b.same("shape", (r.shape, r.dtype), (want.shape, want.dtype))
        b.eq("rotation", r, want)


def g3_(nm, combo, sizes, what):
    @scenario("R10", "predict_" + nm, bounds="terms %s; 1, 2 and 4 "
              "correlations; %s; every time and antenna of the first row, any "
              "values" % (nm, what))
    def f(b):
        cs = b.pick("corrs", [(1,), (2,), (2, 2)])
        ns, nt, na, nr, nc = b.pick("size", sizes)
        x = inputs(b, combo, ns, nt, na, nr, nc, cs)
        t0 = b.int("t0", 0, 1)
        ti = [t0 + (i * 7 + 7) % nt for i in range(nr)]
        ti[0] = t0 + b.int("t", 0, nt - 1)
        a1 = [(i * 5) % na for i in range(nr)]
        a2 = [(i * 3 + 1) % na for i in range(nr)]
        a1[0], a2[0] = b.int("p", 0, na - 1), b.int("q", 0, na - 1)
        ti, a1, a2 = [b.np.array(v, dtype="int32") for v in (ti, a1, a2)]
        with cupy(b) as load:
            m = load("africanus.rime.cuda.predict")
            keep = keepall(b, **x)
            r = m.predict_vis(ti, a1, a2, **x)
            want = ref(b, ti, a1, a2, x, nc, cs)
            b.same("shape", (r.shape, r.dtype.kind), (want.shape, "c"))
            b.eq("vis", r, want)
            keep()


g3_("all", (True,) * 4, [(2, 2, 2, 2, 1), (1, 1, 2, 1, 2), (1, 1, 2, 25, 1),
                         (1, 1, 1, 1, 9)],
    "up to 2 sources, times and antennas, rows and channels across the edge "
    "of a thread block")
for _c in COMBOS:
    if not all(_c):
        _n = "_".join(n for n, k in zip(("ddes", "coh", "dies", "base"), _c)
                      if k)
        g3_(_n, _c, [(2, 2, 2, 2, 1), (1, 1, 2, 2, 9)],
            "up to 2 sources, times, antennas and rows, 1 or 9 channels")


SCHEMAS = [(["I", "Q", "U", "V"], ["XX", "XY", "YX", "YY"]),
           (["I", "Q", "U", "V"], ["RR", "RL", "LR", "LL"]),
           (["V", "I", "U", "Q"], ["YY", "RL", "XX", "LL"]),
           (["XX", "XY", "YX", "YY"], ["I", "Q", "U", "V"]),
           (["RR", "RL", "LR", "LL"], ["I", "Q", "U", "V"]),
           (["LL", "LR", "RL", "RR"], ["V", "U", "Q", "I"]),
           (["I", "Q"], ["XX", "YY"]), (["XX", "YY"], ["Q", "I"]),
           (["I", "V"], ["LL", "RR"])]


def nest4(s, how):
    return [s[:2], s[2:]] if how and len(s) == 4 else list(s)


@scenario("R10", "convert", bounds="nine schemas of 2 or 4 elements, flat or "
          "nested, 1..6 and 513 sources, both precisions, any values")
def g4(b):
    i, o = b.pick("schema", SCHEMAS)
    n = b.pick("n", [1, 2, 3, 4, 5, 6, (2, 3), 513])
    if n == 513 and i[0] != "XX":
        n = 7
    ni, no = b.bool("nested in"), b.bool("nested out")
    t = b.pick("type", ["8", "4"])
    if (ni or no) and n not in (1, 5) or t == "4" and n != 3:
        return b.true("size", True)
    shape = n if isinstance(n, tuple) else (n,)
    cp = i[0] in ("XX", "RR", "LL")
    if n == 513:
        few = b.cplxs("x", (4, 2))
        x = b.np.array([[few[(k + j) % 4, j % 2] for j in range(len(i))]
                        for k in range(513)])
    elif cp:
        x = b.cplxs("x", shape + (len(i),))
    else:
        x = b.reals("x", shape + (len(i),))
    if t == "4":
        x = x.astype("complex64" if cp else "float32")
    if ni and len(i) == 4:
        x = x.reshape(shape + (2, 2))
    with cupy(b) as load:
        m = load("africanus.model.coherency.cuda.conversion")
        keep = keepall(b, x=x)
        r = m.convert(x, nest4(i, ni), nest4(o, no))
        want = b.mod("africanus.model.coherency.conversion").convert(
            x, nest4(i, ni), nest4(o, no))
        b.same("shape", (r.shape, r.dtype.kind), (want.shape, want.dtype.kind))
        b.eq("values", r, want)
        keep()


F = Fraction
ZONES = [(0, 0), (F(1, 4), F(1, 2)), (1, F(3, 4)), (F(3, 2), F(1, 3)),
         (-1, F(7, 4)), (2, 3)]


def positive_beam(b, shape):
    g = b.reals("gain", shape[3:], 1, 5)
    return (some_beam(b, shape) * g).astype("complex128")


def beam_fn(b, load):
    gpu = load("africanus.rime.cuda.beam").beam_cube_dde
    cpu = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde

    def go(*args):
        keep = keepall(b, **{"a%d" % k: a for k, a in enumerate(args)})
        r = gpu(*args)
        want = cpu(*args)
        b.same("shape", (r.shape, r.dtype), (want.shape, want.dtype))
        b.eq("beam", r, want)
        keep()
    return go


@scenario("R10", "beam_layout", bounds="2x3x2 cube of distinct values with any "
          "positive factor per correlation; 1..2 "
          "sources, times, antennas and channels, 1, 2 and 4 correlations, "
          "fixed positions, pointing errors, scalings and frequencies that "
          "differ for every index")
def g5(b):
    ns, nt, na, nc = b.pick("dims", [(2, 2, 2, 2), (1, 2, 3, 1), (3, 1, 1, 3)])
    cs = b.pick("corrs", [(1,), (2,), (2, 2), (4,)])
    if cs == (4,) and ns > 1:
        return b.true("size", True)
    beam = positive_beam(b, (2, 3, 2) + cs)
    ext = b.farr([[0, 1], [0, 2]])
    fm = b.farr([1, 2])
    lm = b.farr([ZONES[(3 * i + 1) % 6] for i in range(ns)])
    pa = b.farr([[b.q(0)] * na] * nt)
    pe = b.farr([[[[F(t, 8) + F(k, 16), F(a, 8) - F(k, 32)]
                   for k in range(nc)] for a in range(na)]
                 for t in range(nt)])
    sc = b.farr([[[1 + F(a, 4), 1 - F(k, 4)] for k in range(nc)]
                 for a in range(na)])
    nu = b.farr([1 + F(k + 1, 4) for k in range(nc)])
    with cupy(b) as load:
        beam_fn(b, load)(beam, ext, fm, lm, pa, pe, sc, nu)


@scenario("R10", "beam_values", bounds="2x2x2 cube with any complex values, "
          "one output at positions on, between and beyond the nodes, both "
          "precisions", fork_timeout_ms=300)
def g5b(b):
    beam = b.cplxs("beam", (2, 2, 2, 1), -5, 5)
    ext, fm = b.farr([[0, 1], [0, 1]]), b.farr([1, 2])
    lm = b.farr([b.pick("lm", [(0, 0), (F(1, 4), F(3, 4)), (2, -1)])])
    nu = b.farr([b.pick("nu", [1, F(5, 4), 3])])
    pa, pe = b.farr([[0]]), b.farr([[[[0, 0]]]])
    args = [beam, ext, fm, lm, pa, pe, b.farr([[[1, 1]]]), nu]
    if b.bool("single"):
        args = [a.astype("complex64" if a is beam else "float32")
                for a in args]
    with cupy(b) as load:
        beam_fn(b, load)(*args)


@scenario("R10", "beam_coordinates", bounds="2x2x2 cube of fixed values, one "
          "output; any position, angle, pointing error, scaling or frequency "
          "inside or outside the cube", fork_timeout_ms=300)
def g6(b):
    what = b.pick("free", ["lm", "nu", "pa", "pe", "sc"])
    beam = some_beam(b, (2, 2, 2, 1))
    ext, fm = b.farr([[-1, 1], [-2, 1]]), b.farr([1, 2])
    lm, pa = b.farr([[F(1, 8), F(-1, 4)]]), b.farr([[0]])
    pe, sc = b.farr([[[[0, F(1, 4)]]]]), b.farr([[[1, F(5, 4)]]])
    nu = b.farr([F(5, 4)])
    if what == "lm":
        lm = b.reals("lm", (1, 2), -3, 3)
    elif what == "nu":
        nu = b.reals("nu", (1,), F(1, 100), 5)
    elif what == "pa":
        pa = b.reals("pa", (1, 1), 0, 2)
    elif what == "pe":
        pe = b.reals("pe", (1, 1, 1, 2), -3, 3)
    else:
        sc = b.reals("sc", (1, 1, 2), F(1, 2), 9)
    with cupy(b) as load:
        beam_fn(b, load)(beam, ext, fm, lm, pa, pe, sc, nu)


@scenario("R10", "beam_frequencies", bounds="2x2 cube of 2..4 planes at fixed "
          "spacings with fixed values; two channels at any frequency inside "
          "or outside", fork_timeout_ms=300)
def g7(b):
    nud = b.int("nud", 2, 4)
    beam = some_beam(b, (2, 2, nud, 1))
    ext = b.farr([[-1, 1], [-2, 1]])
    fm = b.farr([1, 2, F(5, 2), 4][:nud])
    nu = b.reals("nu", (2,), F(1, 10), 6)
    with cupy(b) as load:
        beam_fn(b, load)(
            beam, ext, fm, b.farr([[F(1, 8), F(-1, 4)]]), b.farr([[0]]),
            b.farr([[[[0, F(1, 4)]] * 2]]), b.farr([[[1, F(5, 4)]] * 2]), nu)


@scenario("R10", "beam_blocks", bounds="antennas, times and channels beyond "
          "one thread block (17 antennas; 9 channels of 4 correlations; 3 "
          "times; 1025 channels); any positive factor of the cube values "
          "per correlation for the first three")
def g8(b):
    nt, na, nc, cs = b.pick("dims", [(1, 17, 1, (4,)), (1, 1, 9, (2, 2)),
                                     (3, 2, 1, (1,)), (1, 1, 1025, (1,))])
    beam = positive_beam(b, (2, 2, 2) + cs) if nc < 99 else \
        some_beam(b, (2, 2, 2) + cs)
    ext, fm = b.farr([[0, 1], [0, 2]]), b.farr([1, 2])
    lm = b.farr([[F(1, 4), F(1, 2)]])
    pa = b.farr([[b.q(0)] * na] * nt)
    pe = b.farr([[[[F(t + a % 5, 16), F(k % 7, 16)] for k in range(nc)]
                  for a in range(na)] for t in range(nt)])
    sc = b.farr([[[1 + F(a, 32), 1] for k in range(nc)] for a in range(na)])
    nu = b.farr([1 + F(k % 8, 9) for k in range(nc)])
    with cupy(b) as load:
        beam_fn(b, load)(beam, ext, fm, lm, pa, pe, sc, nu)


SRC = """{%- from "rime/cuda/macros.j2" import warp_transpose %}
extern "C" __global__ void go(const CArray<TYPE, 2> in, CArray<TYPE, 2> out)
{
    TYPE var[{{n}}];
    int t = blockIdx.x*blockDim.x + threadIdx.x;
    for(int e=0; e < {{n}}; ++e) { var[e] = in[t*{{n}} + e]; }
    {{ warp_transpose("var", "TYPE", n) }}
    for(int e=0; e < {{n}}; ++e) { out[t*{{n}} + e] = var[e]; }
}
"""


@scenario("R10", "transpose", bounds="the warp transpose macro for lengths 1 "
          "to 32 and other lengths refused; real and complex, any values")
def g9(b):
    n = b.pick("n", [0, 1, 2, 3, 4, 6, 8, 16, 32])
    cp = b.bool("complex")
    groups = 2 if n < 32 else 1
    with cupy(b) as load:
        j = load("africanus.util.jinja2")
        t = j.jinja_env.from_string(SRC.replace(
            "TYPE", "double2" if cp else "double"))
        if n not in (1, 2, 4, 8, 16, 32):
            return b.raises("refused", j.TemplatingException,
                            lambda: t.render(n=n))
        x = (b.cplxs if cp else b.reals)("x", (groups * n, n))
        out = b.np.zeros((groups * n, n), dtype="complex128" if cp
                         else "float64")
        import cupy as cu
        cu.RawKernel(t.render(n=n), "go")((1, 1, 1), (groups * n, 1, 1),
                                          (x, out))
        for g in range(groups):
            sl = slice(g * n, (g + 1) * n)
            b.eq("transposed", out[sl], x[sl].T)


@scenario("R10", "refusals", bounds="index arrays of other types, missing "
          "terms, unknown feeds and types, cubes too small or with too many "
          "planes or correlations, schemas of different lengths, kernels "
          "asked for again")
def g10(b):
    what = b.pick("what", ["index", "one dde", "nothing", "feed", "int angle",
                           "small cube", "planes", "corrs", "real cube",
                           "schemas", "missing", "shape", "mixed", "twice"])
    with cupy(b) as load:
        if what in ("index", "one dde", "nothing"):
            m = load("africanus.rime.cuda.predict")
            ti = [b.np.array([0, 1], dtype="int32") for _ in range(3)]
            x = b.cplxs("x", (1, 2, 2, 1, 1))
            if what == "index":
                k = b.int("k", 0, 2)
                ti[k] = ti[k].astype(b.pick("dt", ["int64", "int16"]))
                b.raises("refused", TypeError,
                         lambda: m.predict_vis(*ti, dde1_jones=x,
                                               dde2_jones=x))
            elif what == "one dde":
                nm = b.pick("nm", ["dde1_jones", "dde2_jones", "die1_jones",
                                   "die2_jones"])
                kw = {nm: x[0] if "die" in nm else x,
                      "base_vis": b.cplxs("v", (2, 1, 1))}
                b.raises("refused", ValueError,
                         lambda: m.predict_vis(*ti, **kw))
            else:
                b.raises("refused", ValueError, lambda: m.predict_vis(*ti))
        elif what in ("feed", "int angle"):
            m = load("africanus.rime.cuda.feeds")
            pa = b.reals("pa", (2,))
            if what == "feed":
                b.raises("refused", (ValueError, load(
                    "africanus.util.jinja2").TemplatingException),
                    lambda: m.feed_rotation(pa, "oval"))
            else:
                b.raises("refused", TypeError, lambda: m.feed_rotation(
                    b.np.array([1, 2])))
        elif what in ("small cube", "planes", "corrs", "real cube"):
            m = load("africanus.rime.cuda.beam")
            shape = {"small cube": b.pick("s", [(1, 2, 2, 1), (2, 1, 2, 1),
                                                (2, 2, 1, 1)]),
                     "planes": (2, 2, 128, 1), "corrs": (2, 2, 2, 3),
                     "real cube": (2, 2, 2, 1)}[what]
            beam = b.np.zeros(shape, dtype="complex128"
                              if what != "real cube" else "float64")
            b.raises("refused", (ValueError, TypeError), lambda:
                     m.beam_cube_dde(beam, b.farr([[0, 1], [0, 1]]),
                                     b.farr(list(range(shape[2]))),
                                     b.farr([[0, 0]]), b.farr([[0]]),
                                     b.farr([[[[0, 0]]]]),
                                     b.farr([[[1, 1]]]), b.farr([1])))
        else:
            m = load("africanus.model.coherency.cuda.conversion")
            x = b.reals("x", (3, 4))
            if what == "schemas":
                b.raises("refused", ValueError, lambda: m.convert(
                    x, ["I", "Q", "U", "V"], ["XX", "YY"]))
            elif what == "missing":
                b.raises("refused", m.MissingConversionInputs, lambda:
                         m.convert(x[:, :2], ["I", "Q"], ["XY", "YX"]))
            elif what == "shape":
                b.raises("refused", ValueError, lambda: m.convert(
                    x, ["I", "Q"], ["XX", "YY"]))
            elif what == "mixed":
                b.raises("refused", ValueError, lambda: m.convert(
                    x[:, :2].astype("complex128"), ["XX", "YY"], ["I", "QQ"]))
            else:
                # kernels are kept for their types and schemas only
                y = b.reals("y", (2, 4))
                for v, i, o in [(x, "IQUV", ["XX", "XY", "YX", "YY"]),
                                (y, "IQUV", ["XX", "XY", "YX", "YY"]),
                                (x, "VUQI", ["XX", "XY", "YX", "YY"]),
                                (x.astype("float32"), "IQUV",
                                 ["RR", "RL", "LR", "LL"]),
                                (x, "IQUV", ["YY", "XY", "YX", "XX"])]:
                    b.eq("again", m.convert(v, list(i), o), b.mod(
                        "africanus.model.coherency.conversion").convert(
                        v, list(i), o))
