"""R05 beam cubes, R06 zernike beams, R08 wsclean prediction."""
import itertools
import math
from fractions import Fraction

import numpy as onp
from engine.harness import scenario
from checks.common import parts, keepall
from checks.r03_phase import lm_inputs, C_LIGHT

CELL = Fraction(1, 100)


def clamp(v, lo, hi):
    if v < lo:
        return v * 0 + lo
    if v > hi:
        return v * 0 + hi
    return v


def tent(v, n):
    """interpolation weights of the n nodes for a coordinate in 0..n-1"""
    z = v * 0
    for i in range(n - 1):
        if v < i + 1:
            return [z] * i + [i + 1 - v, v - i] + [z] * (n - 2 - i)
    return [z] * (n - 1) + [z + 1]


def freq_weights(nu, fmap):
    """(coordinate scale, weights of the planes)"""
    n = len(fmap)
    z = nu * 0
    if nu <= fmap[0]:
        return nu / fmap[0], [z + 1] + [z] * (n - 1)
    if nu >= fmap[n - 1]:
        return nu / fmap[n - 1], [z] * (n - 1) + [z + 1]
    out = []
    for i in range(n):
        w = z
        if i > 0 and nu > fmap[i - 1] and nu <= fmap[i]:
            w = (nu - fmap[i - 1]) / (fmap[i] - fmap[i - 1])
        elif i < n - 1 and nu >= fmap[i] and nu < fmap[i + 1]:
            w = (fmap[i + 1] - nu) / (fmap[i + 1] - fmap[i])
        out.append(w)
    return z + 1, out


def oracle(b, beam, ext, fmap, lm, pa, pe, sc, nu):
    """beam (lw, mh, nud) of one correlation; all others for one output"""
    np = b.np
    fs, wf = freq_weights(nu, fmap)
    tl, tm = lm[0] * fs + pe[0], lm[1] * fs + pe[1]
    co, si = np.cos(pa), np.sin(pa)
    c = ((tl * co - tm * si) * sc[0], (tl * si + tm * co) * sc[1])
    w = []
    for k in range(2):
        n = beam.shape[k]
        g = (c[k] - ext[k][0]) * (n - 1) / (ext[k][1] - ext[k][0])
        w.append(tent(clamp(g, 0, n - 1), n))
    s, a = 0, 0
    for i, j, k in itertools.product(*[range(n) for n in beam.shape]):
        t = w[0][i] * w[1][j] * wf[k]
        s = s + t * beam[i, j, k]
        a = a + t * abs(beam[i, j, k])
    return s, a


def beam_claim(b, lab, got, s, a):
    """amplitude is the interpolated amplitude, phase that of the sum"""
    d = abs(s)
    if d == 0:
        b.eq(lab, got, s * a)      # s is zero
    else:
        b.eq(lab, got, s * a / d)


def cube_inputs(b, lw, mh, nud):
    ext = b.reals("ext", (2, 2), lo=-1, hi=1)
    for k in range(2):
        b.assume(ext[k, 1] - ext[k, 0] >= b.q(1, 100))
    fmap = b.reals("fmap", (nud,), lo=1, hi=10)
    for k in range(nud - 1):
        b.assume(fmap[k + 1] - fmap[k] >= b.q(1, 100))
    return ext, fmap


def some_beam(b, shape):
    n = int(onp.prod(shape))
    v = [Fraction(1 + 3 * i + i * i % 5, 7) for i in range(n)]
    o = onp.empty(n, dtype=object)
    o[:] = v
    return b.farr(o.reshape(shape), "complex128")


@scenario("R05", "interpolation", bounds="cubes of 2x2x2, 3x2x2, 2x3x2; any "
          "position and frequency inside or outside the cube (fixed cube "
          "values; no rotation, offset or scaling)", fork_timeout_ms=300)
def s1(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    lw, mh, nud = b.pick("dims", [(2, 2, 2), (3, 2, 2), (2, 3, 2)])
    beam = some_beam(b, (lw, mh, nud))
    ext, fmap = b.farr([[-1, 1], [-2, 1]]), b.farr([1, 2])
    lm = b.reals("lm", (1, 2), lo=-3, hi=3)
    nu = b.reals("nu", (1,), lo=CELL, hi=5)
    pa, pe = b.farr([[0]]), b.farr([[[[0, 0]]]])
    sc = b.farr([[[1, 1]]])
    r = f(beam, ext, fmap, lm, pa, pe, sc, nu)
    b.same("shape", r.shape, (1, 1, 1, 1))
    s, a = oracle(b, beam, ext, fmap, lm[0], pa[0, 0], pe[0, 0, 0],
                  sc[0, 0], nu[0])
    beam_claim(b, "value", r[0, 0, 0, 0], s, a)


Q = Fraction(1, 4)


@scenario("R05", "values", bounds="2x2x2 cube with any complex values at "
          "positions on, between and beyond the nodes; amplitude is the "
          "interpolated amplitude, phase that of the interpolated value",
          fork_timeout_ms=300)
def s1c(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    beam = b.cplxs("beam", (2, 2, 2), lo=-5, hi=5)
    ext, fmap = b.farr([[0, 1], [0, 1]]), b.farr([1, 2])
    lm = b.farr([b.pick("lm", [(0, 0), (Q, 1 - Q), (1, Q), (2, -1), (Q, 1),
                               (0, Q)])])
    nu = b.farr([b.pick("nu", [1, 1 + Q, 2, Fraction(1, 2), 3])])
    pa, pe = b.farr([[0]]), b.farr([[[[0, 0]]]])
    sc = b.farr([[[1, 1]]])
    r = f(beam, ext, fmap, lm, pa, pe, sc, nu)
    s, a = oracle(b, beam, ext, fmap, lm[0], pa[0, 0], pe[0, 0, 0],
                  sc[0, 0], nu[0])
    beam_claim(b, "value", r[0, 0, 0, 0], s, a)


@scenario("R05", "coordinates", bounds="2x2x2 cube varying along l or m, fixed "
          "extents; any position, parallactic angle, pointing error and "
          "antenna scaling inside or outside the cube, frequency inside, "
          "below or above the map", fork_timeout_ms=200,
          query_timeout_ms=4000)
def s2(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    k = b.int("axis", 0, 1)
    beam = b.farr([[[10 + (x, y)[k]] * 2 for y in range(2)]
                   for x in range(2)], "complex128")
    ext, fmap = b.farr([[-1, 1], [-1, 1]]), b.farr([1, 2])
    lm = b.reals("lm", (1, 2), lo=-2, hi=2)
    nu = b.farr([b.pick("nu", [Fraction(1, 2), Fraction(5, 4), 3])])
    pa = b.reals("pa", (1, 1), lo=-3, hi=3)
    pe = b.reals("pe", (1, 1, 1, 2), lo=-1, hi=1)
    sc = b.reals("sc", (1, 1, 2), lo=CELL, hi=2)
    keep = keepall(b, lm=lm, pa=pa, pe=pe, sc=sc)
    r = f(beam, ext, fmap, lm, pa, pe, sc, nu)
    s, a = oracle(b, beam, ext, fmap, lm[0], pa[0, 0], pe[0, 0, 0],
                  sc[0, 0], nu[0])
    b.eq("value", r[0, 0, 0, 0], s)
    keep()


@scenario("R05", "extents", bounds="2x2x2 cube with fixed values; any "
          "extents, frequency map and position", fork_timeout_ms=200)
def s2b(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    beam = some_beam(b, (2, 2, 2))
    ext, fmap = cube_inputs(b, 2, 2, 2)
    lm = b.reals("lm", (1, 2), lo=-2, hi=2)
    nu = b.farr([5])
    pa, pe = b.farr([[0]]), b.farr([[[[0, 0]]]])
    sc = b.farr([[[1, 1]]])
    keep = keepall(b, ext=ext, fmap=fmap, lm=lm)
    r = f(beam, ext, fmap, lm, pa, pe, sc, nu)
    s, a = oracle(b, beam, ext, fmap, lm[0], pa[0, 0], pe[0, 0, 0],
                  sc[0, 0], nu[0])
    b.eq("value", r[0, 0, 0, 0], s)
    keep()


@scenario("R05", "frequency", bounds="frequency maps of 2..4 planes, any "
          "frequencies (1..2 channels), below, inside or above the map")
def s3(b):
    f = b.mod("africanus.rime.fast_beam_cubes").freq_grid_interp
    n = b.int("n", 2, 4)
    nc = b.int("nc", 1, 2)
    fmap = b.reals("fmap", (n,), lo=1, hi=10)
    for k in range(n - 1):
        b.assume(fmap[k + 1] - fmap[k] >= b.q(1, 100))
    nu = b.reals("nu", (nc,), lo=CELL, hi=20)
    r = f(nu, fmap)
    b.same("shape", r.shape, (nc, 3))
    for c in range(nc):
        fs, w = freq_weights(nu[c], fmap)
        b.eq("scale", r[c, 0], fs)
        lo = int(r[c, 2])
        b.true("plane range", 0 <= lo <= n - 2)
        for k in range(n):
            got = r[c, 1] if k == lo else (1 - r[c, 1] if k == lo + 1
                                           else r[c, 1] * 0)
            b.eq("weight", got, w[k])


@scenario("R05", "indexing", bounds="2 sources, 1..2 times, 2 antennas, 1..2 "
          "channels, 1..2 correlations in 0..2 axes: each output uses its own "
          "inputs (positions inside the cube)", fork_timeout_ms=200)
def s4(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    ns, nt, na, nc, corr = b.pick("dims", [
        (2, 1, 1, 1, ()), (1, 2, 2, 1, (2,)), (1, 1, 2, 2, (1, 2)),
        (2, 2, 1, 1, (2,)), (1, 1, 1, 1, (2, 2))])
    beam = some_beam(b, (2, 2, 2) + corr)
    ext, fmap = b.farr([[-10, 10], [-10, 10]]), b.farr([1, 2])
    lm = b.reals("lm", (ns, 2), lo=-1, hi=1)
    nu = b.farr([Fraction(5 + c, 4) for c in range(nc)])
    pa = b.farr([[0 for a in range(na)] for t in range(nt)])
    pe = b.reals("pe", (nt, na, nc, 2), lo=-1, hi=1)
    sc = b.reals("sc", (na, nc, 2), lo=CELL, hi=1)
    r = f(beam, ext, fmap, lm, pa, pe, sc, nu)
    b.same("shape", r.shape, (ns, nt, na, nc) + corr)
    b.same("dtype", str(r.dtype), "complex128")
    for s, t, a, c in itertools.product(range(ns), range(nt), range(na),
                                        range(nc)):
        for ix in itertools.product(*[range(k) for k in corr]):
            bm = beam[(slice(None),) * 3 + ix]
            v, am = oracle(b, bm, ext, fmap, lm[s], pa[t, a], pe[t, a, c],
                           sc[a, c], nu[c])
            b.eq("value", r[(s, t, a, c) + ix], v)


@scenario("R05", "rotation", bounds="1 source, 2 times, 2 antennas, any "
          "angles: each output uses its own angle (positions inside the "
          "cube)", fork_timeout_ms=200)
def s4b(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    beam = some_beam(b, (2, 2, 2))
    ext, fmap = b.farr([[-10, 10], [-10, 10]]), b.farr([1, 2])
    lm = b.farr([[Fraction(1, 2), Fraction(1, 3)]])
    nu = b.farr([1])
    pa = b.reals("pa", (2, 2), lo=-3, hi=3)
    pe = b.farr(onp.zeros((2, 2, 1, 2)))
    sc = b.farr(onp.ones((2, 1, 2)))
    r = f(beam, ext, fmap, lm, pa, pe, sc, nu)
    for t, a in itertools.product(range(2), range(2)):
        v, am = oracle(b, beam, ext, fmap, lm[0], pa[t, a], pe[t, a, 0],
                       sc[a, 0], nu[0])
        b.eq("value", r[0, t, a, 0], v)


@scenario("R05", "refusals", bounds="cubes thinner than 2 in a dimension")
def s5(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    d = [b.int("d%d" % k, 1, 2) for k in range(3)]
    beam = b.reals("beam", tuple(d), lo=CELL, hi=5) * (1 + 0j)
    ext = b.farr([[-1, 1], [-1, 1]])
    fmap = b.farr([1, 2][:d[2]])
    args = (beam, ext, fmap, b.farr([[0, 0]]), b.farr([[0]]),
            b.farr([[[[0, 0]]]]), b.farr([[[1, 1]]]), b.farr([1]))
    if min(d) < 2:
        b.raises("thin cube", ValueError, lambda: f(*args))
    else:
        b.same("accepted", f(*args).shape, (1, 1, 1, 1))


@scenario("R05", "dask", bounds="2 sources, times, antennas, channels and "
          "0..1 correlation axes in every chunking; chunked cubes, maps or "
          "extents are refused")
def s6(b):
    f = b.mod("africanus.rime.fast_beam_cubes").beam_cube_dde
    g = b.mod("africanus.rime.dask").beam_cube_dde
    corr = b.pick("corr", [(), (2,)])
    beam = b.farr(onp.arange(8 * (2 if corr else 1)).reshape(
        (2, 2, 2) + corr) + 1, "complex128")
    ext, fmap = b.farr([[-10, 10], [-10, 10]]), b.farr([1, 2])
    lm = b.reals("lm", (2, 2), lo=-1, hi=1)
    nu = b.farr([1, 2])
    pa = b.farr([[0, 1], [2, 3]])
    pe = b.farr(onp.arange(16).reshape(2, 2, 2, 2) / 32.0)
    sc = b.farr([[[1, 2], [Fraction(1, 2), 1]], [[1, 1],
                                                 [Fraction(1, 4), 2]]])
    kind = b.pick("kind", ["ok", "beam", "map", "ext"])
    full = lambda x: tuple((n,) for n in x.shape)    # noqa
    cb, cm, ce = full(beam), full(fmap), full(ext)
    if kind == "ok":
        cs, ct, ca, cc = [b.pick(n, parts(2))
                          for n in ("cs", "ct", "ca", "cc")]
    else:
        cs = ct = ca = cc = (2,)
        ax = b.int("ax", 0, 1)
        if kind == "beam":
            cb = cb[:ax] + ((1, 1),) + cb[ax + 1:]
        elif kind == "map":
            cm = ((1, 1),)
        else:
            ce = ce[:ax] + ((1, 1),) + ce[ax + 1:]

    def call():
        return g(b.dask(beam, cb), b.dask(ext, ce), b.dask(fmap, cm),
                 b.dask(lm, (cs, (2,))), b.dask(pa, (ct, ca)),
                 b.dask(pe, (ct, ca, cc, (2,))),
                 b.dask(sc, (ca, cc, (2,))), b.dask(nu, (cc,)))
    if kind != "ok":
        b.raises("chunked " + kind, ValueError, call)
        return
    r = call()
    b.same("chunks", r.chunks, (cs, ct, ca, cc) + full(beam)[3:])
    b.same("dtype", str(r.dtype), "complex128")
    b.eq("dask", b.compute(r), f(beam, ext, fmap, lm, pa, pe, sc, nu))


# ------------------------------------------------------------ zernike
NOLL = [(0, 0), (1, 1), (1, -1), (2, 0), (2, -2), (2, 2), (3, -1), (3, 1),
        (3, -3), (3, 3), (4, 0), (4, 2), (4, -2), (4, 4), (4, -4),
        (5, 1), (5, -1), (5, 3), (5, -3), (5, 5), (5, -5), (6, 0)]
FAC = math.factorial


def radial(n, m, rho):
    m = abs(m)
    t = 0
    for k in range((n - m) // 2 + 1):
        c = (-1) ** k * FAC(n - k) // (
            FAC(k) * FAC((n + m) // 2 - k) * FAC((n - m) // 2 - k))
        t = t + c * rho ** (n - 2 * k)
    return t


def zern(b, j, l, m):
    np = b.np
    rho = np.sqrt(l * l + m * m)
    if rho > 1:
        return rho * 0
    phi = np.arctan2(l, m)
    n, k = NOLL[j]
    r = radial(n, k, rho)
    if k > 0:
        return r * np.cos(k * phi)
    if k < 0:
        return r * np.sin(-k * phi)
    return r


@scenario("R06", "definition", bounds="Noll indices 0..14 (0..21 thorough), "
          "any direction in or outside the unit disc, any coefficient; 1..2 "
          "terms")
def z1(b):
    f = b.mod("africanus.rime.zernike").zernike_dde
    top = 14 if b.tier == "quick" else 21
    j = b.int("j", 0, top)
    nt = b.int("nt", 1, 2)
    idx = [j, (j + 7) % (top + 1)][:nt]
    co = b.reals("coord", (3, 1, 1, 1, 1), lo=-2, hi=2)
    cf = b.cplxs("coeff", (1, 1, 1, nt), lo=-5, hi=5)
    r = f(co, cf, onp.array(idx).reshape(1, 1, 1, nt))
    b.same("shape", r.shape, (1, 1, 1, 1, 1))
    l, m = co[0, 0, 0, 0, 0], co[1, 0, 0, 0, 0]
    want = sum(cf[0, 0, 0, p] * zern(b, idx[p], l, m) for p in range(nt))
    b.eq("value", r[0, 0, 0, 0, 0], want)


@scenario("R06", "indexing", bounds="2 sources, times, antennas, channels, "
          "0..2 correlation axes, 2 terms: each output uses its own "
          "coordinates and coefficients; inputs unchanged")
def z2(b):
    f = b.mod("africanus.rime.zernike").zernike_dde
    ns, nt, na, nc, corr = b.pick("dims", [
        (2, 1, 2, 1, (2,)), (1, 2, 1, 2, (1, 2)), (1, 1, 2, 2, (2, 2)),
        (2, 2, 1, 1, ())])
    co = b.reals("coord", (3, ns, nt, na, nc), lo=0, hi=Fraction(1, 2))
    cf = b.cplxs("coeff", (na, nc) + corr + (2,), lo=-5, hi=5)
    ix = onp.arange(onp.prod(cf.shape)).reshape(cf.shape) % 4
    keep = keepall(b, coords=co, coeffs=cf)
    r = f(co, cf, ix)
    b.same("shape", r.shape, (ns, nt, na, nc) + corr)
    b.same("dtype", str(r.dtype), "complex128")
    b.same("indices unchanged",
           (ix == onp.arange(ix.size).reshape(ix.shape) % 4).all(), True)
    for s, t, a, c in itertools.product(range(ns), range(nt), range(na),
                                        range(nc)):
        for k in itertools.product(*[range(x) for x in corr]):
            want = sum(cf[(a, c) + k + (p,)] *
                       zern(b, ix[(a, c) + k + (p,)], co[0, s, t, a, c],
                            co[1, s, t, a, c]) for p in range(2))
            b.eq("value", r[(s, t, a, c) + k], want)
    keep()


@scenario("R06", "dask", bounds="2 sources, times, antennas, channels and "
          "0..1 correlation axes in every chunking; chunked coordinate "
          "components or polynomial terms are refused")
def z3(b):
    f = b.mod("africanus.rime.zernike").zernike_dde
    g = b.mod("africanus.rime.dask").zernike_dde
    corr = b.pick("corr", [(), (2,)])
    kind = b.pick("kind", ["ok", "poly", "index", "comp"])
    co = b.reals("coord", (3, 2, 2, 2, 2), lo=0, hi=Fraction(1, 2))
    cf = b.cplxs("coeff", (2, 2) + corr + (2,), lo=-5, hi=5)
    ix = onp.arange(onp.prod(cf.shape)).reshape(cf.shape) % 4
    if kind == "ok":
        cs, ct, ca, cc = [b.pick(n, parts(2))
                          for n in ("cs", "ct", "ca", "cc")]
        ck = (b.pick("ck", parts(2)),) if corr else ()
    else:
        cs = ct = ca = cc = (2,)
        ck = ((2,),) if corr else ()
    cp = (1, 1) if kind == "poly" else (2,)
    ci = (1, 1) if kind in ("poly", "index") else (2,)
    c3 = (1, 2) if kind == "comp" else (3,)

    def call():
        return g(b.dask(co, (c3, cs, ct, ca, cc)),
                 b.dask(cf, (ca, cc) + ck + (cp,)),
                 b.dask(ix, (ca, cc) + ck + (ci,)))
    if kind != "ok":
        b.raises("chunked " + kind, ValueError, call)
        return
    r = call()
    b.same("chunks", r.chunks, (cs, ct, ca, cc) + ck)
    b.same("dtype", str(r.dtype), "complex128")
    b.eq("dask", b.compute(r), f(co, cf, ix))


# ------------------------------------------------------- wsclean predict
def wsc_oracle(b, lm, uvw, stype, shape, nu, spec):
    """one source, row, channel"""
    np = b.np
    l, m = lm
    u, v, w = uvw
    n = np.sqrt(1 - l * l - m * m)
    ph = 2 * b.pi * (l * u + m * v + (n - 1) * w) * nu / C_LIGHT
    re, im = np.cos(ph) * spec, np.sin(ph) * spec
    if stype == "GAUSSIAN":
        emaj, emin, ang = shape
        fw = 2 * np.sqrt(2 * np.log(b.q(2)))
        k = b.np.sqrt(b.q(2)) * b.pi / fw / C_LIGHT * nu
        u1 = (u * np.cos(ang) - v * np.sin(ang)) * emin * k
        v1 = (u * np.sin(ang) + v * np.cos(ang)) * emaj * k
        g = np.exp(-(u1 * u1 + v1 * v1))
        re, im = re * g, im * g
    return re, im


def wsc_inputs(b, ns, nr, nc):
    lm = lm_inputs(b, "lm", ns)
    uvw = b.reals("uvw", (nr, 3), lo=-1000, hi=1000)
    nu = b.reals("nu", (nc,), lo=CELL, hi=40) * C_LIGHT
    flux = b.reals("flux", (ns,), lo=CELL, hi=10)
    rf = b.reals("rf", (ns,), lo=CELL, hi=40) * C_LIGHT
    sp = b.reals("shape", (ns, 3), lo=CELL, hi=1)
    return lm, uvw, nu, flux, rf, sp


@scenario("R08", "definition", bounds="1..2 point or Gaussian sources in any "
          "order, 1..2 rows and channels, 1 coefficient, ordinary or "
          "logarithmic")
def w1(b):
    f = b.mod("africanus.rime.wsclean_predict").wsclean_predict
    spectra = b.mod("africanus.model.wsclean.spec_model").spectra
    ns, nr, nc = b.pick("dims", [(1, 1, 1), (2, 1, 1), (1, 2, 2)])
    st = onp.array([b.pick("t%d" % s, ["POINT", "GAUSSIAN"])
                    for s in range(ns)])
    lm, uvw, nu, flux, rf, sp = wsc_inputs(b, ns, nr, nc)
    cf = b.reals("cf", (ns, 1), lo=-3, hi=3)
    lp = onp.array([b.bool("log%d" % s) for s in range(ns)])
    keep = keepall(b, lm=lm, uvw=uvw, nu=nu, flux=flux, rf=rf, sp=sp, cf=cf)
    r = f(uvw, lm, st, flux, cf, lp, rf, sp, nu)
    b.same("shape", r.shape, (nr, nc, 1))
    b.same("dtype", str(r.dtype), "complex128")
    spec = spectra(flux, cf, lp, rf, nu)
    for t, c in itertools.product(range(nr), range(nc)):
        v = [wsc_oracle(b, lm[s], uvw[t], st[s], sp[s], nu[c], spec[s, c])
             for s in range(ns)]
        b.eq("re", r[t, c, 0].real, sum(x[0] for x in v))
        b.eq("im", r[t, c, 0].imag, sum(x[1] for x in v))
    keep()


@scenario("R08", "shapes", bounds="1 source, row and channel: a Gaussian with "
          "zero axes is a point; unknown types are refused; types of 32/64 "
          "bit mixtures")
def w2(b):
    f = b.mod("africanus.rime.wsclean_predict").wsclean_predict
    lm, uvw, nu, flux, rf, sp = wsc_inputs(b, 1, 1, 1)
    cf = b.reals("cf", (1, 1), lo=-3, hi=3)
    lp = onp.array([False])
    sp = b.farr([[0, 0, sp[0, 2]]])
    P, G = onp.array(["POINT"]), onp.array(["GAUSSIAN"])
    b.eq("zero extent", f(uvw, lm, G, flux, cf, lp, rf, sp, nu),
         f(uvw, lm, P, flux, cf, lp, rf, sp, nu))
    b.raises("unknown type", ValueError,
             lambda: f(uvw, lm, onp.array(["SHAPELET"]), flux, cf, lp, rf,
                       sp, nu))
    k = b.int("which", 0, 5)
    a = [x.astype("float64" if i == k else "float32")
         for i, x in enumerate((uvw, lm, flux, cf, rf, nu))]
    r = f(a[0], a[1], P, a[2], a[3], lp, a[4], sp, a[5])
    b.same("dtype", str(r.dtype), "complex128")
    a = [x.astype("float32") for x in a]
    r = f(a[0], a[1], P, a[2], a[3], lp, a[4], sp, a[5])
    b.same("dtype32", str(r.dtype), "complex64")


@scenario("R08", "dask", bounds="2 sources, 2 rows, 2 channels, 2 "
          "coefficients in every chunking; chunked coefficients are refused")
def w3(b):
    f = b.mod("africanus.rime.wsclean_predict").wsclean_predict
    g = b.mod("africanus.rime.dask").wsclean_predict
    st = onp.array(["POINT", "GAUSSIAN"])
    lm, uvw, nu, flux, rf, sp = wsc_inputs(b, 2, 2, 2)
    cf = b.reals("cf", (2, 2), lo=-3, hi=3)
    lp = onp.array([False, True])
    cs, cr, cc, ck = [b.pick(n, parts(2)) for n in ("cs", "cr", "cc", "ck")]

    def call():
        return g(b.dask(uvw, (cr, (3,))), b.dask(lm, (cs, (2,))),
                 b.dask(st, (cs,)), b.dask(flux, (cs,)),
                 b.dask(cf, (cs, ck)), b.dask(lp, (cs,)),
                 b.dask(rf, (cs,)), b.dask(sp, (cs, (3,))),
                 b.dask(nu, (cc,)))
    if len(ck) > 1:
        b.raises("chunked coefficients", ValueError, call)
        return
    r = call()
    b.same("chunks", r.chunks, (cr, cc, (1,)))
    b.same("dtype", str(r.dtype), "complex128")
    b.eq("dask", b.compute(r), f(uvw, lm, st, flux, cf, lp, rf, sp, nu))
