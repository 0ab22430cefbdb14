"""C01 coordinate conversions."""
from fractions import Fraction

from engine.harness import scenario
from checks.common import parts, keepall
from checks.r03_phase import lm_inputs

HALF = Fraction(157, 100)          # just inside pi/2


def mods(b):
    return b.mod("africanus.coordinates.coordinates")


def direction(b, radec, pc):
    """(l, m, n) of the unit vector towards radec seen from pc"""
    np = b.np
    ra, dec = radec
    r0, d0 = pc
    d = ra - r0
    return (np.cos(dec) * np.sin(d),
            np.sin(dec) * np.cos(d0) - np.cos(dec) * np.sin(d0) * np.cos(d),
            np.sin(dec) * np.sin(d0) + np.cos(dec) * np.cos(d0) * np.cos(d))


@scenario("C01", "forward", bounds="1..2 directions, any angles, with or "
          "without phase centre; n is the non-negative root")
def s1(b):
    M = mods(b)
    ns = b.int("ns", 1, 2)
    radec = b.reals("radec", (ns, 2), lo=-4, hi=4)
    have = b.bool("have")
    pc = b.reals("pc", (2,), lo=-4, hi=4) if have else b.farr([0, 0])
    keep = keepall(b, radec=radec, pc=pc)
    a = (radec, pc) if have else (radec,)
    lm, lmn = M.radec_to_lm(*a), M.radec_to_lmn(*a)
    b.same("shapes", (lm.shape, lmn.shape), ((ns, 2), (ns, 3)))
    b.same("dtypes", (str(lm.dtype), str(lmn.dtype)),
           ("float64", "float64"))
    for s in range(ns):
        l, m, n = direction(b, radec[s], pc)
        b.eq("l", lm[s, 0], l)
        b.eq("m", lm[s, 1], m)
        b.eq("l of lmn", lmn[s, 0], l)
        b.eq("m of lmn", lmn[s, 1], m)
        b.true("n >= 0", lmn[s, 2] >= 0)
        b.eq("unit vector", lmn[s, 2] ** 2 + l * l + m * m, b.q(1))
    keep()


@scenario("C01", "hemisphere", bounds="1 direction in the hemisphere of the "
          "phase centre: n is the cosine of the distance")
def s1b(b):
    M = mods(b)
    radec = b.reals("radec", (1, 2), lo=-4, hi=4)
    pc = b.reals("pc", (2,), lo=-4, hi=4)
    l, m, n = direction(b, radec[0], pc)
    b.assume(n >= 0)
    r = M.radec_to_lmn(radec, pc)[0, 2]
    b.eq("n squared", r * r, 1 - l * l - m * m)
    b.true("n", b.all(r >= 0))
    z = M.radec_to_lmn(b.farr([[pc[0], pc[1]]]), pc)
    b.eq("phase centre", z, b.farr([[0, 0, 1]]))


@scenario("C01", "inverse", bounds="1..2 directions anywhere in the visible "
          "hemisphere, phase centre anywhere between the poles (or none): "
          "the returned position has exactly the given direction cosines")
def s2(b):
    np = b.np
    M = mods(b)
    ns = b.int("ns", 1, 2)
    lm = lm_inputs(b, "lm", ns)
    have = b.bool("have")
    pc = b.reals("pc", (2,), lo=-HALF, hi=HALF) if have else b.farr([0, 0])
    n = [np.sqrt(1 - lm[s, 0] ** 2 - lm[s, 1] ** 2) for s in range(ns)]
    for s in range(ns):
        # the pole itself has no right ascension
        x = n[s] * np.cos(pc[1]) - lm[s, 1] * np.sin(pc[1])
        b.assume(lm[s, 0] ** 2 + x * x >= b.q(1, 1000))
    lmn = b.farr([[lm[s, 0], lm[s, 1], n[s]] for s in range(ns)])
    keep = keepall(b, lm=lm, lmn=lmn, pc=pc)
    k = (pc,) if have else ()
    for nm, r in (("lm", M.lm_to_radec(lm, *k)),
                  ("lmn", M.lmn_to_radec(lmn, *k))):
        b.same("shape", r.shape, (ns, 2))
        b.same("dtype", str(r.dtype), "float64")
        for s in range(ns):
            got = direction(b, r[s], pc)
            for c, g, w in zip("lmn", got, (lm[s, 0], lm[s, 1], n[s])):
                b.eq("%s of %s" % (c, nm), g, w)
    keep()


@scenario("C01", "declination", bounds="1 direction in the visible hemisphere:"
          " the declination is the arc sine, hence within the poles")
def s2b(b):
    np = b.np
    M = mods(b)
    lm = lm_inputs(b, "lm", 1)
    pc = b.reals("pc", (2,), lo=-HALF, hi=HALF)
    n = np.sqrt(1 - lm[0, 0] ** 2 - lm[0, 1] ** 2)
    x = n * np.cos(pc[1]) - lm[0, 1] * np.sin(pc[1])
    b.assume(lm[0, 0] ** 2 + x * x >= b.q(1, 1000))
    r = M.lm_to_radec(lm, pc)
    b.eq("dec", r[0, 1],
         np.arcsin(lm[0, 1] * np.cos(pc[1]) + n * np.sin(pc[1])))


@scenario("C01", "refusals", bounds="coordinate arrays with 1..4 components")
def s3(b):
    M = mods(b)
    k = b.int("k", 1, 4)
    x = b.reals("x", (1, k), lo=0, hi=Fraction(1, 4))
    for nm, n in (("radec_to_lm", 2), ("radec_to_lmn", 2),
                  ("lm_to_radec", 2), ("lmn_to_radec", 3)):
        f = getattr(M, nm)
        if k == n:
            b.same(nm, f(x).shape[0], 1)
        else:
            b.raises(nm, ValueError, lambda: f(x))


@scenario("C01", "dask", bounds="3 directions (any for lm, fixed ones for the "
          "others) in every chunking, with or without phase centre")
def s4(b):
    M, D = mods(b), b.mod("africanus.coordinates.dask")
    cs = b.pick("cs", parts(3))
    have = b.bool("have")
    radec = b.reals("radec", (3, 2), lo=-1, hi=1)
    Q = Fraction
    lmn = b.farr([[Q(1, 3), Q(2, 3), Q(2, 3)], [Q(-2, 7), Q(3, 7), Q(6, 7)],
                  [Q(4, 9), Q(-4, 9), Q(7, 9)]])
    pc = b.reals("pc", (2,), lo=-1, hi=1)
    fix = b.farr([Q(1, 10), Q(1, 20)])
    for nm, x, n, pc in (
            ("radec_to_lm", radec, 2, pc),
            ("radec_to_lmn", lmn[:, :2], 3, fix),
            ("lm_to_radec", lmn[:, :2], 2, fix),
            ("lmn_to_radec", lmn, 2, fix)):
        a = (x, pc) if have else (x,)
        k = (b.dask(x, (cs, (x.shape[1],))),) + (
            (b.dask(pc, ((2,),)),) if have else ())
        r = getattr(D, nm)(*k)
        b.same("chunks", r.chunks, (cs, (n,)))
        b.same("dtype", str(r.dtype), "float64")
        b.eq(nm, b.compute(r), getattr(M, nm)(*a))
