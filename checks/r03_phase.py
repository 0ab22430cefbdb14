"""R03 phase delay, R04 feed rotation and source transform."""
import itertools
from engine.harness import scenario
from checks.common import parts

C_LIGHT = 299792458



def phase(b, lm, uvw, nu, sign):
    np = b.np
    l, m = lm
    n = np.sqrt(1 - l * l - m * m)
    u, v, w = uvw
    ph = sign * 2 * b.pi * (l * u + m * v + (n - 1) * w) * nu / C_LIGHT
    return np.cos(ph), np.sin(ph)


def lm_inputs(b, name, n):
    lm = b.reals(name, (n, 2))
    for i in range(n):
        b.assume(lm[i, 0] ** 2 + lm[i, 1] ** 2 <= 1)
    return lm


@scenario("R03", "definition", bounds="1..2 sources, 1..2 rows, 1..2 "
          "channels, both conventions, real lm in the unit disc, any uvw/nu")
def s1(b):
    f = b.mod("africanus.rime.phase").phase_delay
    ns, nr, nc = b.pick("dims", [(1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 1)])
    lm = lm_inputs(b, "lm", ns)
    uvw = b.reals("uvw", (nr, 3))
    nu = b.reals("nu", (nc,)) * C_LIGHT
    conv = b.pick("conv", [None, "fourier", "casa"])
    keep = b.copy(lm), b.copy(uvw), b.copy(nu)
    r = f(lm, uvw, nu) if conv is None else f(lm, uvw, nu, convention=conv)
    b.same("shape", r.shape, (ns, nr, nc))
    b.same("dtype", str(r.dtype), "complex128")
    sign = 1 if conv == "casa" else -1
    for s, t, c in itertools.product(range(ns), range(nr), range(nc)):
        re, im = phase(b, lm[s], uvw[t], nu[c], sign)
        b.eq("re[%d,%d,%d]" % (s, t, c), r[s, t, c].real, re)
        b.eq("im[%d,%d,%d]" % (s, t, c), r[s, t, c].imag, im)
        b.eq("unit modulus", r[s, t, c].real ** 2 + r[s, t, c].imag ** 2,
             b.q(1))
    for a, k, n in zip((lm, uvw, nu), keep, ("lm", "uvw", "nu")):
        b.eq(n + " unchanged", a, k)


@scenario("R03", "symmetry", bounds="1 source, 1 row, 1 channel; both "
          "conventions")
def s2(b):
    f = b.mod("africanus.rime.phase").phase_delay
    lm = lm_inputs(b, "lm", 1)
    uvw = b.reals("uvw", (1, 3))
    nu = b.reals("nu", (1,)) * C_LIGHT
    conv = b.pick("conv", ["fourier", "casa"])
    k = f(lm, uvw, nu, convention=conv)
    kc = f(lm, uvw, nu, convention="casa" if conv == "fourier"
           else "fourier")
    b.eq("conventions are conjugate", b.np.conj(k), kc)
    b.eq("baseline reversal conjugates", f(lm, -uvw, nu, convention=conv),
         b.np.conj(k))
    z = b.farr([[0, 0]])
    b.eq("phase centre has no delay", f(z, uvw, nu, convention=conv),
         b.farr([[[1]]], "complex128"))
    b.raises("bad convention", ValueError,
             lambda: f(lm, uvw, nu, convention="wsclean"))


@scenario("R03", "dask", bounds="2 sources, 3 rows, 2 channels in every "
          "chunking, both conventions")
def s3(b):
    f = b.mod("africanus.rime.phase").phase_delay
    g = b.mod("africanus.rime.dask").phase_delay
    lm = lm_inputs(b, "lm", 2)
    uvw = b.reals("uvw", (3, 3))
    nu = b.reals("nu", (2,)) * C_LIGHT
    conv = b.pick("conv", ["fourier", "casa"])
    cs = b.pick("cs", parts(2))
    cr = b.pick("cr", parts(3))
    cc = b.pick("cc", parts(2))
    want = f(lm, uvw, nu, convention=conv)
    r = g(b.dask(lm, (cs, (2,))), b.dask(uvw, (cr, (3,))),
          b.dask(nu, (cc,)), convention=conv)
    b.same("chunks", r.chunks, (cs, cr, cc))
    b.same("dtype", str(r.dtype), "complex128")
    b.eq("dask", b.compute(r), want)
    if conv == "fourier":
        r = g(b.dask(lm, (cs, (2,))), b.dask(uvw, (cr, (3,))),
              b.dask(nu, (cc,)))
        b.eq("dask default", b.compute(r), want)


# ---------------------------------------------------------------- R04
@scenario("R04", "feed_rotation", bounds="angle arrays of 1..3 dims up to 4 "
          "elements, both feed types")
def f1(b):
    f = b.mod("africanus.rime.feeds").feed_rotation
    shp = b.pick("shp", [(1,), (3,), (2, 2), (1, 2, 2)])
    pa = b.reals("pa", shp)
    ft = b.pick("ft", [None, "linear", "circular"])
    keep = b.copy(pa)
    r = f(pa) if ft is None else f(pa, ft)
    b.same("shape", r.shape, shp + (2, 2))
    b.same("dtype", str(r.dtype), "complex128")
    c, s = b.np.cos(pa), b.np.sin(pa)
    z = c * 0
    if ft == "circular":
        re = [[c, z], [z, c]]
        im = [[-s, z], [z, s]]
    else:
        re = [[c, s], [-s, c]]
        im = [[z, z], [z, z]]
    for i in range(2):
        for j in range(2):
            b.eq("re%d%d" % (i, j), r[..., i, j].real, re[i][j])
            b.eq("im%d%d" % (i, j), r[..., i, j].imag, im[i][j])
    b.eq("angles unchanged", pa, keep)
    # unitary
    x = r.reshape((-1, 2, 2))[0]
    eye = b.farr([[1, 0], [0, 1]], "complex128")
    b.eq("unitary", x.dot(b.np.conj(x.T)), eye)
    b.raises("bad feed", ValueError, lambda: f(pa, "bad"))


@scenario("R04", "feed_rotation_dask", bounds="3x2 angles in every "
          "chunking, both feed types")
def f2(b):
    f = b.mod("africanus.rime.feeds").feed_rotation
    g = b.mod("africanus.rime.dask").feed_rotation
    pa = b.reals("pa", (3, 2))
    ft = b.pick("ft", ["linear", "circular"])
    c0, c1 = b.pick("c0", parts(3)), b.pick("c1", parts(2))
    r = g(b.dask(pa, (c0, c1)), ft)
    b.same("chunks", r.chunks, (c0, c1, (2,), (2,)))
    b.eq("dask", b.compute(r), f(pa, ft))


def xform(b, lm, pa, pe, sc, nu):
    np = b.np
    out = [[[[[None] * len(nu) for _ in range(pa.shape[1])]
             for _ in range(pa.shape[0])] for _ in range(len(lm))]
           for _ in range(3)]
    for s, t, a, c in itertools.product(
            range(len(lm)), range(pa.shape[0]), range(pa.shape[1]),
            range(len(nu))):
        l, m = lm[s]
        co, si = np.cos(pa[t, a]), np.sin(pa[t, a])
        out[0][s][t][a][c] = (l * co - m * si + pe[t, a, 0]) * sc[a, c]
        out[1][s][t][a][c] = (l * si + m * co + pe[t, a, 1]) * sc[a, c]
        out[2][s][t][a][c] = nu[c]
    return b.farr(out)


@scenario("R04", "transform_sources", bounds="2 sources, 1..2 times, "
          "2 antennas, 1..2 channels, all values real")
def t1(b):
    f = b.mod("africanus.rime.transform").transform_sources
    ns, nt, na, nc = b.pick("dims", [(2, 2, 2, 2), (1, 1, 2, 1),
                                     (2, 1, 1, 2)])
    lm, pa = b.reals("lm", (ns, 2)), b.reals("pa", (nt, na))
    pe = b.reals("pe", (nt, na, 2))
    sc, nu = b.reals("sc", (na, nc)), b.reals("nu", (nc,))
    keep = [b.copy(x) for x in (lm, pa, pe, sc, nu)]
    r = f(lm, pa, pe, sc, nu)
    b.same("dtype", str(r.dtype), "float64")
    b.eq("coords", r, xform(b, lm, pa, pe, sc, nu))
    b.same("dtype32", str(f(lm, pa, pe, sc, nu, dtype=b.np.float32).dtype),
           "float32")
    for a, k in zip((lm, pa, pe, sc, nu), keep):
        b.eq("unchanged", a, k)


@scenario("R04", "transform_sources_dask", bounds="2 sources, 2 times, "
          "2 antennas, 2 channels in every chunking")
def t2(b):
    f = b.mod("africanus.rime.transform").transform_sources
    g = b.mod("africanus.rime.dask").transform_sources
    lm, pa = b.reals("lm", (2, 2)), b.reals("pa", (2, 2))
    pe = b.reals("pe", (2, 2, 2))
    sc, nu = b.reals("sc", (2, 2)), b.reals("nu", (2,))
    cs, ct, ca, cc = [b.pick(n, parts(2)) for n in ("cs", "ct", "ca", "cc")]
    r = g(b.dask(lm, (cs, (2,))), b.dask(pa, (ct, ca)),
          b.dask(pe, (ct, ca, (2,))), b.dask(sc, (ca, cc)),
          b.dask(nu, (cc,)))
    b.same("chunks", r.chunks, ((3,), cs, ct, ca, cc))
    b.eq("dask", b.compute(r), f(lm, pa, pe, sc, nu))


@scenario("R03", "jax", bounds="1..2 sources, 1..2 rows, 1..2 channels; jax "
          "(not installed) replaced by numpy's interface")
def s4(b):
    import sys
    import types
    f = b.mod("africanus.rime.phase").phase_delay
    name = "africanus.rime.jax.phase"
    old = {n: sys.modules.get(n) for n in ("jax", "jax.numpy", name)}
    try:
        jax = types.ModuleType("jax")
        jax.__path__ = []
        jax.numpy = b.np
        sys.modules.update({"jax": jax, "jax.numpy": b.np})
        sys.modules.pop(name, None)
        g = b.mod(name).phase_delay
        ns, nr, nc = b.pick("dims", [(1, 1, 1), (2, 2, 2), (1, 2, 2),
                                     (2, 1, 1)])
        lm = lm_inputs(b, "lm", ns)
        uvw = b.reals("uvw", (nr, 3))
        nu = b.reals("nu", (nc,)) * C_LIGHT
        r = g(lm, uvw, nu)
        b.same("shape", r.shape, (ns, nr, nc))
        b.eq("equals the numpy version", r, f(lm, uvw, nu))
    finally:
        for n, v in old.items():
            sys.modules.pop(n, None)
            if v is not None:
                sys.modules[n] = v
