"""M01 Stokes / correlation conversion."""
import itertools
import numpy as np
from engine.harness import scenario

CORR = ["RR", "RL", "LR", "LL", "XX", "XY", "YX", "YY"]
STOKES = ["I", "Q", "U", "V"]
CASA = dict(I=1, Q=2, U=3, V=4, RR=5, RL=6, LR=7, LL=8, XX=9, XY=10, YX=11,
            YY=12)
J = 1j


def corr_of(s, name):
    """the textbook definition of each correlation"""
    i, q, u, v = s["I"], s["Q"], s["U"], s["V"]
    return {"XX": lambda: i + q, "XY": lambda: u + v * J,
            "YX": lambda: u - v * J, "YY": lambda: i - q,
            "RR": lambda: i + v, "RL": lambda: q + u * J,
            "LR": lambda: q - u * J, "LL": lambda: i - v}[name]()


def stokes_of(c, name, lin):
    if lin:
        f = {"I": lambda: (c["XX"] + c["YY"]).real / 2,
             "Q": lambda: (c["XX"] - c["YY"]).real / 2,
             "U": lambda: (c["XY"] + c["YX"]).real / 2,
             "V": lambda: (c["XY"] - c["YX"]).imag / 2}
    else:
        f = {"I": lambda: (c["RR"] + c["LL"]).real / 2,
             "V": lambda: (c["RR"] - c["LL"]).real / 2,
             "Q": lambda: (c["RL"] + c["LR"]).real / 2,
             "U": lambda: (c["RL"] - c["LR"]).imag / 2}
    return f[name]()


def nest(seq, how):
    """arrange 4 names in one of the documented nestings"""
    if how == 0:
        return list(seq)
    if how == 1:
        return [list(seq[:2]), list(seq[2:])]
    if how == 2:
        return [[s] for s in seq]
    return [[list(seq)]]


NSHAPE = {0: (4,), 1: (2, 2), 2: (4, 1), 3: (1, 1, 4)}


def naming(seq, b, tag):
    """each name is given either as a string or as a CASA id"""
    if b.bool(tag):
        return [CASA[s] for s in seq]
    return list(seq)


@scenario("M01", "stokes_to_corr", bounds="4 Stokes inputs in any order, "
          "4 nestings in and out, all ordered sets of output correlations "
          "from one of 6 groups, names or ids; leading dims (2,)")
def s1(b):
    conv = b.mod("africanus.model.coherency.conversion")
    perm = b.pick("perm", list(itertools.permutations(STOKES)))
    outs = b.pick("outs", [CORR[:4], CORR[4:], CORR[3::-1], CORR[:3:-1],
                           ["RR", "XY", "LR", "YY"],
                           ["YX", "LL", "XX", "RL"]])
    ni, no = b.pick("nest", [(0, 0), (1, 1), (2, 0), (0, 3)])
    x = b.reals("x", (2, 4))
    s = {n: x[:, k] for k, n in enumerate(perm)}
    keep = b.copy(x)
    r = conv.convert(x.reshape((2,) + NSHAPE[ni]),
                     nest(naming(perm, b, "id"), ni),
                     nest(naming(outs, b, "id"), no))
    want = b.np.stack([corr_of(s, o) + 0j for o in outs], axis=1)
    b.eq("corr", r, want.reshape((2,) + NSHAPE[no]))
    b.same("complex result", r.dtype.kind, "c")
    b.eq("input kept", x, keep)


@scenario("M01", "stokes_pairs", bounds="every ordered pair of correlations "
          "from 2..4 Stokes parameters")
def s2(b):
    conv = b.mod("africanus.model.coherency.conversion")
    o1 = b.pick("o1", CORR)
    o2 = b.pick("o2", CORR)
    drop = b.pick("drop", [None] + STOKES)
    names = [n for n in STOKES if n != drop]
    x = b.reals("x", (len(names),))
    s = {n: x[k] for k, n in enumerate(names)}
    need = {"RR": "IV", "LL": "IV", "RL": "QU", "LR": "QU",
            "XX": "IQ", "YY": "IQ", "XY": "UV", "YX": "UV"}
    if o1 == o2:
        b.raises("duplicate output", ValueError,
                 lambda: conv.convert(x, names, [o1, o2]))
        return
    if drop is not None and (drop in need[o1] or drop in need[o2]):
        b.raises("missing input", conv.MissingConversionInputs,
                 lambda: conv.convert(x, names, [o1, o2]))
        return
    r = conv.convert(x, names, [o1, o2])
    full = dict({n: b.q(0) for n in STOKES}, **s)
    b.eq("corr", r, b.farr([corr_of(full, o1), corr_of(full, o2)],
                           "complex128"))


@scenario("M01", "corr_to_stokes", bounds="4 linear or circular "
          "correlations (arbitrary complex) in any order and nesting, any "
          "output order")
def s3(b):
    conv = b.mod("africanus.model.coherency.conversion")
    lin = b.bool("lin")
    base = CORR[4:] if lin else CORR[:4]
    perm = [base[i] for i in b.pick("perm", list(
        itertools.permutations(range(4))))]
    outs = b.pick("outs", [STOKES, STOKES[::-1], ["Q", "I", "V", "U"],
                           ["I"], ["V", "Q"], ["U"], ["Q"], ["V"]])
    ni = b.pick("ni", [0, 1])
    x = b.cplxs("x", (2, 4))
    c = {n: x[:, k] for k, n in enumerate(perm)}
    r = conv.convert(x.reshape((2,) + NSHAPE[ni]),
                     nest(naming(perm, b, "idi"), ni), outs)
    want = b.np.stack([stokes_of(c, o, lin) for o in outs], axis=1)
    b.eq("stokes", r, want)
    b.same("real result", r.dtype.kind, "f")


@scenario("M01", "roundtrip", bounds="4 Stokes in any order, linear or "
          "circular correlations in any of 24 orders, 4 nestings")
def s4(b):
    conv = b.mod("africanus.model.coherency.conversion")
    base = CORR[4:] if b.bool("lin") else CORR[:4]
    perm = [base[i] for i in b.pick("perm", list(
        itertools.permutations(range(4))))]
    so = b.pick("so", [STOKES, STOKES[::-1], ["U", "I", "V", "Q"]])
    no = b.pick("no", [0, 1, 2, 3])
    x = b.reals("x", (2, 4))
    corrs = conv.convert(x, so, nest(perm, no))
    back = conv.convert(corrs, nest(perm, no), so)
    b.eq("roundtrip", back, x)
    # the other way, for a Hermitian coherency
    again = conv.convert(back, so, nest(perm, no))
    b.eq("roundtrip corr", again, corrs)


@scenario("M01", "all_eight", bounds="input carrying linear and circular "
          "correlations of the same sky in any rotation of order")
def s5(b):
    conv = b.mod("africanus.model.coherency.conversion")
    x = b.reals("x", (4,))
    k = b.int("rot", 0, 7)
    rev = b.bool("rev")
    names = CORR[k:] + CORR[:k]
    names = names[::-1] if rev else names
    c = conv.convert(x, STOKES, names)
    outs = b.pick("outs", [STOKES, ["V"], ["U", "Q"], ["Q", "V"]])
    r = conv.convert(c, names, outs)
    b.eq("stokes", r, b.farr([x[STOKES.index(o)] for o in outs]))


@scenario("M01", "invalid", bounds="schema/shape mismatches of length 2..4")
def s6(b):
    conv = b.mod("africanus.model.coherency.conversion")
    n = b.int("n", 1, 4)
    x = b.reals("x", (2, n))
    m = b.int("m", 1, 4)
    sch = STOKES[:m]
    if n != m:
        b.raises("length mismatch", ValueError,
                 lambda: conv.convert(x, sch, ["XX"]))
    b.raises("duplicate input", ValueError,
             lambda: conv.convert(b.reals("y", (2,)), ["I", "I"], ["XX"]))
    b.raises("mixed duplicate", ValueError,
             lambda: conv.convert(b.reals("y", (2,)), ["I", 1], ["XX"]))
    b.raises("ragged", conv.DimensionMismatch,
             lambda: conv.convert(b.reals("z", (2, 2)), [["I", "Q"], ["U"]],
                                  ["XX"]))
    b.raises("bad id", ValueError,
             lambda: conv.convert(b.reals("y", (2,)), ["I", 999], ["XX"]))
    b.raises("bad type", TypeError,
             lambda: conv.convert(b.reals("y", (2,)), ["I", 1.5], ["XX"]))
    b.raises("unknown output", ValueError,
             lambda: conv.convert(b.reals("y", (2,)), ["I", "Q"], ["PP"]))


@scenario("M01", "dask", bounds="3 leading elements in any chunking (4 "
          "compositions) x 2 lead dims, linear/circular/Stokes schemas")
def s7(b):
    conv = b.mod("africanus.model.coherency.conversion")
    dconv = b.mod("africanus.model.coherency.dask")
    ch = b.pick("ch", [(3,), (1, 2), (2, 1), (1, 1, 1)])
    c2 = b.pick("c2", [(2,), (1, 1)])
    i, o = b.pick("sch", [(STOKES, [["XX", "XY"], ["YX", "YY"]]),
                          (STOKES, ["RR", "LL"]),
                          ([["RR", "RL"], ["LR", "LL"]], STOKES),
                          (["XX", "YX", "XY", "YY"], [["V"], ["I"]])])
    cplx = np.shape(i) == (2, 2) or i[0] == "XX"
    x = (b.cplxs if cplx else b.reals)("x", (3, 2) + np.shape(i))
    want = conv.convert(x, i, o)
    d = b.dask(x, (ch, c2) + tuple((n,) for n in np.shape(i)))
    r = dconv.convert(d, i, o)
    b.same("shape", r.shape, want.shape)
    b.same("chunks", r.chunks[:2], (ch, c2))
    b.same("dtype", str(r.dtype), str(want.dtype))
    b.eq("dask", b.compute(r), want)
