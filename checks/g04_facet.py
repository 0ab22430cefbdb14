"""G04/G05/G06: perleypolyhedron facet gridder, kernels and dask wrappers."""
import contextlib
import itertools
import math
from fractions import Fraction

from engine.harness import scenario
from checks.common import parts, keepall

PP = "africanus.gridding.perleypolyhedron."
I = complex(0, 1)

# each product as (I, Q, U, V) coefficients
DEF = {"XX": (1, 1, 0, 0), "XY": (0, 0, 1, I), "YX": (0, 0, 1, -I),
       "YY": (1, -1, 0, 0), "RR": (1, 0, 0, 1), "RL": (0, 1, I, 0),
       "LR": (0, 1, -I, 0), "LL": (1, 0, 0, -1)}
TO = ["I_FROM_XXYY", "I_FROM_XXXYYXYY", "I_FROM_RRLL", "I_FROM_RRRLLRLL",
      "Q_FROM_XXYY", "Q_FROM_XXXYYXYY", "Q_FROM_RRRLLRLL", "U_FROM_XYYX",
      "U_FROM_XXXYYXYY", "U_FROM_RLLR", "U_FROM_RRRLLRLL", "V_FROM_RRLL",
      "V_FROM_RRRLLRLL", "V_FROM_XYYX", "V_FROM_XXXYYXYY"]
FROM = ["XXYY_FROM_I", "XXXYYXYY_FROM_I", "RRLL_FROM_I", "RRRLLRLL_FROM_I",
        "XXYY_FROM_Q", "XXXYYXYY_FROM_Q", "RLLR_FROM_Q", "RRRLLRLL_FROM_Q",
        "XYYX_FROM_U", "XXXYYXYY_FROM_U", "RLLR_FROM_U", "RRRLLRLL_FROM_U",
        "XYYX_FROM_V", "XXXYYXYY_FROM_V", "RRLL_FROM_V", "RRRLLRLL_FROM_V"]


def products(s):
    return [s[i:i + 2] for i in range(0, len(s), 2)]


def direction(b, c, c0):
    np = b.np
    d = c[0] - c0[0]
    cd, sd, c0d, s0d = (np.cos(c[1]), np.sin(c[1]), np.cos(c0[1]),
                        np.sin(c0[1]))
    return (cd * np.sin(d), sd * c0d - cd * s0d * np.cos(d),
            sd * s0d + cd * c0d * np.cos(d))


def tangent(b, c, c0):
    """axes of the frame at c seen from c0: east and north are the
    derivatives of the direction by right ascension (over cos dec) and by
    declination"""
    np = b.np
    d = c[0] - c0[0]
    s, k = np.sin(d), np.cos(d)
    S, C, S0, C0 = (np.sin(c[1]), np.cos(c[1]), np.sin(c0[1]),
                    np.cos(c0[1]))
    return ((k, S0 * s, -C0 * s),
            (-S * s, C * C0 + S * S0 * k, C * S0 - S * C0 * k),
            direction(b, c, c0))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


@scenario("G04", "stokes_from_correlations", bounds="every conversion policy,"
          " any values; unknown policies refused")
def s1(b):
    S = b.mod(PP + "policies.stokes_conversion_policies")
    p = b.pick("policy", TO + ["I_FROM_XX", "X"])
    v = b.cplxs("v", (4,))
    if p not in TO:
        b.raises("unknown", ValueError, lambda: S.corr2stokes(v, p))
        return
    st, pr = p.split("_FROM_")
    pr = products(pr)
    v = v[:len(pr)]
    r = S.corr2stokes(v, p)
    k = "IQUV".index(st)
    # orthogonal combination: sum conj(coef) * product / 2
    re = im = 0
    for j, q in enumerate(pr):
        c = complex(DEF[q][k]).conjugate()
        x, y = v[j].real, v[j].imag
        re = re + (int(c.real) * x - int(c.imag) * y) / 2
        im = im + (int(c.real) * y + int(c.imag) * x) / 2
    b.eq("re", r.real, re)
    b.eq("im", r.imag, im)


@scenario("G04", "correlations_from_stokes", bounds="every conversion "
          "policy, any value added to any contents; unknown refused")
def s2(b):
    S = b.mod(PP + "policies.stokes_conversion_policies")
    p = b.pick("policy", FROM + ["XX_FROM_I", "X"])
    x = b.cplx("x")
    out = b.cplxs("out", (4,))
    if p not in FROM:
        b.raises("unknown", ValueError, lambda: S.stokes2corr(x, out, p))
        b.raises("unknown n", ValueError, lambda: S.ncorr_out(p))
        b.raises("unknown npy", ValueError, lambda: S.ncorr_outpy(p)())
        return
    pr, st = p.split("_FROM_")
    pr = products(pr)
    b.same("ncorr", S.ncorr_out(p), len(pr))
    b.same("ncorr py", S.ncorr_outpy(p)(), len(pr))
    out = out[:len(pr)]
    old = b.copy(out)
    S.stokes2corr(x, out, p)
    k = "IQUV".index(st)
    for j, q in enumerate(pr):
        c = complex(DEF[q][k])
        a, e = int(c.real), int(c.imag)
        b.eq(q + ".re", out[j].real, old[j].real + a * x.real - e * x.imag)
        b.eq(q + ".im", out[j].imag, old[j].imag + a * x.imag + e * x.real)


@scenario("G04", "baseline_transforms", bounds="any baseline, any phase and "
          "facet centres (facet within the hemisphere for the planar "
          "approximation)")
def s3(b):
    T = b.mod(PP + "policies.baseline_transform_policies")
    np = b.np
    p = b.pick("policy", ["None", "rotate", "wlinapprox", "Rotate"])
    uvw = b.reals("uvw", (3,))
    c0, c = b.reals("c0", (2,), lo=-4, hi=4), b.reals("c", (2,), lo=-4, hi=4)
    a = (c0[0], c0[1], c[0], c[1], p)
    if p == "Rotate":
        b.raises("unknown", ValueError, lambda: T.policy(uvw, *a))
        return
    l, m, n = direction(b, c, c0)
    if p == "wlinapprox":
        b.assume(n >= Fraction(1, 10))
    old = [uvw[0], uvw[1], uvw[2]]
    T.policy(uvw, *a)
    if p == "None":
        want = old
    elif p == "wlinapprox":
        want = [old[0] - old[2] * l / n, old[1] - old[2] * m / n, old[2]]
    else:
        want = [dot(r, old) for r in tangent(b, c, c0)]
        b.eq("length", dot(uvw, uvw), dot(old, old))
        b.eq("w is the delay towards the facet", uvw[2],
             l * old[0] + m * old[1] + n * old[2])
    for i in range(3):
        b.eq("uvw", uvw[i], want[i])


def phasor(b, uvw, c, c0, lam, sign):
    l, m, _ = direction(b, c, c0)
    n1 = b.np.sqrt(1 - l * l - m * m) - 1
    x = sign * 2 * b.pi * (uvw[0] * l + uvw[1] * m + uvw[2] * n1) / lam
    return b.np.cos(x), b.np.sin(x)


@scenario("G04", "phase_rotation", bounds="1..2 channels and correlations, "
          "any baseline and centres, both signs; unknown policies refused")
def s4(b):
    T = b.mod(PP + "policies.phase_transform_policies")
    nc = b.int("nc", 1, 2)
    p = b.pick("policy", ["None", "phase_rotate", "rotate"])
    vis = b.cplxs("vis", (nc, 2))
    uvw = b.reals("uvw", (3,))
    lam = b.reals("lam", (nc,), lo=Fraction(1, 100), hi=10)
    c0, c = b.reals("c0", (2,), lo=-4, hi=4), b.reals("c", (2,), lo=-4, hi=4)
    sg = b.pick("sign", [1.0, -1.0])

    def run():
        T.policy(vis, uvw, lam, c0[0], c0[1], c[0], c[1], policy_type=p,
                 phasesign=sg)
    if p == "rotate":
        b.raises("unknown", ValueError, run)
        return
    old = b.copy(vis)
    keep = keepall(b, uvw=uvw, lam=lam)
    run()
    for i in range(nc):
        cs, sn = (1, 0) if p == "None" else phasor(b, uvw, c, c0, lam[i],
                                                   int(sg))
        for j in range(2):
            x, y = old[i, j].real, old[i, j].imag
            b.eq("re", vis[i, j].real, cs * x - sn * y)
            b.eq("im", vis[i, j].imag, cs * y + sn * x)
    keep()


# ------------------------------------------------------------ (de)gridding
class Place:
    """A sample whose nearest cell is d and whose kernel phase is k: the
    distance from sample to cell is (|k| + e)/OS, e in (0, 1), sign of k"""

    def __init__(self, b, name, npix, OS, full):
        if full:
            self.d = b.pick(name + "d", [-1, 0, npix - 1, npix])
            h = (OS + 1) // 2
            self.k, sg = b.pick(name + "k", [(k, 1) for k in range(h)] +
                                [(-k, -1) for k in range(h)])
        else:
            self.d, self.k, sg = 1, 0, -1
        lo = Fraction(1, 20)
        hi = min(Fraction(19, 20), Fraction(OS, 2) - abs(self.k) -
                 Fraction(1, 20))
        e = b.real(name + "e", lo, hi)
        dist = sg * (abs(self.k) + e) / OS
        self.scaled = self.d - dist - npix // 2

    def taps(self, K, W, OS, npix):
        """[(cell, weight)] including cells outside the grid"""
        return [(self.d + t - W // 2, K[(t + 1) * OS + self.k])
                for t in range(W)]


def kernel_inputs(b, dims=((1, 2), (3, 3), (3, 2))):
    W, OS = b.pick("kernel", list(dims))
    return W, OS, b.reals("K", (OS * (W + 2),), lo=-2, hi=3)


def pack(b, K, W, OS):
    """the packed layout by definition: phase major, then tap"""
    return b.farr([K[t + j * OS] for t in range(OS) for j in range(W + 2)])


def metres(b, scaled, lam, npix, cell):
    return scaled * lam * 3600 * 180 / (npix * cell * b.pi)


def sample(b, npix, W, OS, nn=False):
    ax = b.pick("axis", ["u", "v"])
    pu = Place(b, "u", npix, OS, ax == "u")
    pv = Place(b, "v", npix, OS, ax == "v")
    lam = b.reals("lam", (1,), lo=Fraction(1, 10), hi=10)
    cell = b.real("cell", 1, 100)
    w = b.real("w", -5, 5)
    uvw = b.farr([[metres(b, pu.scaled, lam[0], npix, cell),
                   metres(b, pv.scaled, lam[0], npix, cell), w]])
    return pu, pv, lam, cell, uvw


CENTRE = (0.0, 0.5)


@scenario("G04", "grid_one_sample", bounds="one sample near every edge of a "
          "3x3 grid, every kernel phase, 1 or 3 taps of any values, "
          "oversampling 2..3, packed and unpacked kernels; samples within "
          "5% of a phase boundary excluded")
def s5(b):
    G = b.mod(PP + "gridder").gridder
    npix = 3
    W, OS, K = kernel_inputs(b)
    packed = b.bool("packed")
    pu, pv, lam, cell, uvw = sample(b, npix, W, OS)
    vis = b.cplxs("vis", (1, 1, 2))
    kern = pack(b, K, W, OS) if packed else K
    keep = keepall(b, uvw=uvw, vis=vis, lam=lam, kern=kern)
    norm = b.bool("norm")
    c0 = CENTRE
    kw = {"do_normalize": True} if norm else {}
    if norm:
        for i in range(len(K)):
            b.assume(K[i] >= Fraction(1, 2))
    r = G(uvw, vis, lam, b.np.array([0]), npix, cell, c0, c0, kern, W, OS,
          "None", "None", "I_FROM_XXYY",
          "conv_1d_axisymmetric_%spacked_scatter" % ("" if packed else "un"),
          **kw)
    b.same("shape", tuple(r.shape), (1, npix, npix))
    b.same("dtype", str(r.dtype), "complex128")
    want = {}
    tot = 0
    for (y, wy), (x, wx) in itertools.product(pv.taps(K, W, OS, npix),
                                              pu.taps(K, W, OS, npix)):
        want[y, x] = wy * wx
        tot = tot + wy * wx
    fac = 1 / (tot + b.q(1, 10 ** 8)) if norm else 1
    re = (vis[0, 0, 0].real + vis[0, 0, 1].real) / 2
    im = (vis[0, 0, 0].imag + vis[0, 0, 1].imag) / 2
    for y, x in itertools.product(range(npix), range(npix)):
        k = want.get((y, x), 0)
        b.eq("re[%d,%d]" % (y, x), r[0, y, x].real, k * re * fac)
        b.eq("im[%d,%d]" % (y, x), r[0, y, x].imag, k * im * fac)
    keep()


@scenario("G04", "grid_nearest", bounds="one sample near every edge of a 3x3 "
          "and 4x4 grid; nearest neighbour")
def s6(b):
    G = b.mod(PP + "gridder").gridder
    npix = b.int("npix", 3, 4)
    W, OS = 1, 2
    pu, pv, lam, cell, uvw = sample(b, npix, W, OS)
    vis = b.cplxs("vis", (1, 1, 4))
    K = b.reals("K", (6,))
    r = G(uvw, vis, lam, b.np.array([0]), npix, cell, CENTRE, CENTRE, K, W,
          OS, "None", "None", "V_FROM_RRRLLRLL", "conv_nn_scatter")
    re = (vis[0, 0, 0].real - vis[0, 0, 3].real) / 2
    im = (vis[0, 0, 0].imag - vis[0, 0, 3].imag) / 2
    for y, x in itertools.product(range(npix), range(npix)):
        k = 1 if (y, x) == (pv.d, pu.d) else 0
        b.eq("re", r[0, y, x].real, k * re)
        b.eq("im", r[0, y, x].imag, k * im)


def many(b, few=False):
    """1..2 rows and channels, their bands, wavelengths and the cell"""
    if few:
        (nr, nc), cm = b.pick("dims", [((2, 1), (1,)), ((1, 2), (1, 0))])
    else:
        nr, nc = b.pick("dims", [(1, 2), (2, 1), (2, 2)])
        cm = b.pick("chanmap", [(0,), (1,)] if nc == 1 else
                    [(0, 0), (0, 1), (1, 0), (1, 1)])
    lam = b.reals("lam", (nc,), lo=Fraction(1, 2), hi=2)
    cell = b.real("cell", 1, 100)
    return nr, nc, b.np.array(cm), cm, lam, cell


@scenario("G04", "grid_bands", bounds="1..2 rows and channels, every band "
          "map; samples at the origin of a 2x2 grid, one tap, 1/4 weights; "
          "with and without normalisation")
def s7(b):
    G = b.mod(PP + "gridder").gridder
    npix = 2
    nr, nc, cmap, cm, lam, cell = many(b)
    vis = b.cplxs("vis", (nr, nc, 2))
    K = b.reals("K", (3,), lo=Fraction(1, 2), hi=2)
    # row r sits on cell (1, 1 - r) at every channel: u is -lam/... only for
    # equal wavelengths, so the second row shares the first's cell
    uvw = b.farr([[0, 0, b.real("w%d" % r, -5, 5)] for r in range(nr)])
    norm = b.bool("norm")
    r = G(uvw, vis, lam, cmap, npix, cell, CENTRE, CENTRE, K, 1, 1, "None",
          "None", "Q_FROM_XXYY", "conv_1d_axisymmetric_unpacked_scatter",
          do_normalize=norm)
    b.same("shape", tuple(r.shape), (max(cm) + 1, npix, npix))
    for q in range(max(cm) + 1):
        re = im = 0
        n = 0
        for i, j in itertools.product(range(nr), range(nc)):
            if cm[j] == q:
                n += 1
                re = re + (vis[i, j, 0].real - vis[i, j, 1].real) / 2
                im = im + (vis[i, j, 0].imag - vis[i, j, 1].imag) / 2
        k = K[1] * K[1]
        f = k / (n * k + b.q(1, 10 ** 8)) if norm else k
        for y, x in itertools.product(range(2), range(2)):
            on = 1 if (y, x) == (1, 1) else 0
            b.eq("re", r[q, y, x].real, on * f * re)
            b.eq("im", r[q, y, x].imag, on * f * im)


def facet_inputs(b):
    pol = b.pick("transform", ["None", "rotate", "wlinapprox"])
    if pol == "wlinapprox":
        a = b.real("a", -1, 1)
        b.assume(b.np.cos(a) >= b.q(1, 2))
        c = [0, a] if b.bool("north") else [a, 0]
        return b.farr([0, 0]), b.farr(c), pol
    return (b.reals("c0", (2,), lo=-3, hi=3), b.reals("c", (2,), lo=-3, hi=3),
            pol)


def facet_uvw(b, t, c0, c, pol):
    """a baseline whose transformed u, v, w is t"""
    if pol == "None":
        return list(t)
    l, m, n = direction(b, c, c0)
    if pol == "wlinapprox":
        return [t[0] + t[2] * l / n, t[1] + t[2] * m / n, t[2]]
    R = tangent(b, c, c0)
    return [R[0][j] * t[0] + R[1][j] * t[1] + R[2][j] * t[2]
            for j in range(3)]


@scenario("G04", "grid_facet", bounds="one sample, any phase and facet "
          "centre, each baseline transform with and without phase rotation")
def s8(b):
    G = b.mod(PP + "gridder").gridder
    npix, W, OS = 3, 1, 2
    c0, c, pol = facet_inputs(b)
    rot = b.bool("phase_rotate")
    lam = b.reals("lam", (1,), lo=Fraction(1, 10), hi=10)
    cell = b.real("cell", 1, 100)
    e, f = b.real("e", Fraction(1, 20), Fraction(9, 20)), \
        b.real("f", Fraction(1, 20), Fraction(9, 20))
    t = [metres(b, e, lam[0], npix, cell),
         metres(b, -1 - f, lam[0], npix, cell), b.real("w", -5, 5)]
    uvw = b.farr([facet_uvw(b, t, c0, c, pol)])
    vis = b.cplxs("vis", (1, 1, 2))
    K = b.reals("K", (6,), lo=-2, hi=3)
    keep = keepall(b, uvw=uvw, vis=vis)
    r = G(uvw, vis, lam, b.np.array([0]), npix, cell, c, c0, K, W, OS, pol,
          "phase_rotate" if rot else "None", "I_FROM_XXYY",
          "conv_1d_axisymmetric_unpacked_scatter")
    k = K[2] * K[2]
    re = (vis[0, 0, 0].real + vis[0, 0, 1].real) / 2
    im = (vis[0, 0, 0].imag + vis[0, 0, 1].imag) / 2
    cs, sn = phasor(b, uvw[0], c, c0, lam[0], 1) if rot else (1, 0)
    for y, x in itertools.product(range(npix), range(npix)):
        on = 1 if (y, x) == (0, 1) else 0
        b.eq("re", r[0, y, x].real, on * k * (cs * re - sn * im))
        b.eq("im", r[0, y, x].imag, on * k * (cs * im + sn * re))
    keep()


@scenario("G04", "degrid_one_sample", bounds="one sample near every edge of "
          "a 3x3 grid of any values, every kernel phase, 1 or 3 taps, "
          "oversampling 2..3, packed and unpacked kernels, serial and "
          "parallel; samples within 5% of a phase boundary excluded")
def s9(b):
    M = b.mod(PP + "degridder")
    D = b.pick("which", [M.degridder, M.degridder_serial])
    npix = 3
    W, OS, K = kernel_inputs(b)
    packed = b.bool("packed")
    for i in range(len(K)):
        b.assume(K[i] >= Fraction(1, 2))
    pu, pv, lam, cell, uvw = sample(b, npix, W, OS)
    grid = b.cplxs("grid", (1, npix, npix))
    kern = pack(b, K, W, OS) if packed else K
    keep = keepall(b, uvw=uvw, grid=grid, lam=lam, kern=kern)
    r = D(uvw, grid, lam, b.np.array([0]), cell, CENTRE, CENTRE, kern, W, OS,
          "None", "None", "XXXYYXYY_FROM_U",
          "conv_1d_axisymmetric_%spacked_gather" % ("" if packed else "un"))
    b.same("shape", tuple(r.shape), (1, 1, 4))
    b.same("dtype", str(r.dtype), "complex128")
    re = im = tot = 0
    for (y, wy), (x, wx) in itertools.product(pv.taps(K, W, OS, npix),
                                              pu.taps(K, W, OS, npix)):
        if 0 <= y < npix and 0 <= x < npix:
            re = re + wy * wx * grid[0, y, x].real
            im = im + wy * wx * grid[0, y, x].imag
            tot = tot + wy * wx
    fac = 1 / (tot + b.q(1, 10 ** 8))
    for j, on in enumerate((0, 1, 1, 0)):
        b.eq("re%d" % j, r[0, 0, j].real, on * re * fac)
        b.eq("im%d" % j, r[0, 0, j].imag, on * im * fac)
    keep()


@scenario("G04", "degrid_facet", bounds="1..2 rows and channels in two "
          "bands (every band map in the thorough tier), any phase and facet centre, each baseline transform with and "
          "without phase rotation")
def s10(b):
    M = b.mod(PP + "degridder")
    D = b.pick("which", [M.degridder, M.degridder_serial])
    npix, W, OS = 3, 1, 2
    c0, c, pol = facet_inputs(b)
    rot = b.bool("phase_rotate")
    nr, nc, cmap, cm, lam, cell = many(b, b.tier == "quick")
    K = b.reals("K", (6,), lo=Fraction(1, 2), hi=2)
    grid = b.cplxs("grid", (2, npix, npix))
    e = b.real("e", Fraction(1, 20), Fraction(2, 20))
    f = b.real("f", Fraction(1, 20), Fraction(2, 20))
    # at every channel (wavelengths 1/2..2) the nearest cell is the centre
    t = [[metres(b, (e if r else -e), b.q(1), npix, cell),
          metres(b, -f, b.q(1), npix, cell), b.real("w%d" % r, -5, 5)]
         for r in range(nr)]
    uvw = b.farr([facet_uvw(b, x, c0, c, pol) for x in t])
    keep = keepall(b, uvw=uvw, grid=grid)
    r = D(uvw, grid, lam, cmap, cell, c, c0, K, W, OS, pol,
          "phase_rotate" if rot else "None", "RRLL_FROM_V",
          "conv_1d_axisymmetric_unpacked_gather")
    b.same("shape", tuple(r.shape), (nr, nc, 2))
    for i, j in itertools.product(range(nr), range(nc)):
        k = K[2] * K[2]
        g = grid[cm[j], 1, 1]
        cs, sn = phasor(b, uvw[i], c, c0, lam[j], -1) if rot else (1, 0)
        fac = k / (k + b.q(1, 10 ** 8))
        for p, sg in enumerate((1, -1)):
            b.eq("re", r[i, j, p].real,
                 sg * fac * (cs * g.real - sn * g.imag))
            b.eq("im", r[i, j, p].imag,
                 sg * fac * (cs * g.imag + sn * g.real))
    keep()


@scenario("G04", "refusals", bounds="mismatched channels, rows, coordinates, "
          "bands and grids, unknown policies")
def s11(b):
    G = b.mod(PP + "gridder").gridder
    M = b.mod(PP + "degridder")
    D = b.pick("which", [M.degridder, M.degridder_serial])
    np = b.np
    what = b.pick("what", ["chanmap", "rows", "uvw", "chan", "band",
                           "square", "conv", "stokes", "base", "phase"])
    nc = 2
    vis = b.cplxs("vis", (2, 3 if what == "chan" else nc, 2))
    uvw = b.reals("uvw", (1 if what == "rows" else 2,
                          2 if what == "uvw" else 3), lo=-1, hi=1)
    lam = b.reals("lam", (nc,), lo=1, hi=2)
    cm = np.array([0] if what == "chanmap" else
                  [0, 1] if what == "band" else [0, 0])
    grid = b.cplxs("grid", (1, 3, 2 if what == "square" else 3))
    K = b.reals("K", (6,), lo=1, hi=2)
    base = "bad" if what == "base" else "None"
    ph = "bad" if what == "phase" else "None"
    conv = "bad" if what == "conv" else "conv_1d_axisymmetric_unpacked_"
    cell = b.real("cell", 1, 2)

    def grd():
        return G(uvw, vis, lam, cm, 3, cell, CENTRE, CENTRE, K, 1, 2, base,
                 ph, "bad" if what == "stokes" else "I_FROM_XXYY",
                 conv + "scatter")

    def deg():
        return D(uvw, grid, lam, cm, cell, CENTRE, CENTRE, K, 1, 2, base, ph,
                 "bad" if what == "stokes" else "XXYY_FROM_I",
                 conv + "gather")
    if what not in ("band", "square"):
        b.raises("gridder " + what, ValueError, grd)
    if what not in ("rows", "chan"):
        b.raises("degridder " + what, ValueError, deg)


# ---------------------------------------------------------------- kernels
@scenario("G05", "pack_unpack", bounds="1, 3 or 5 taps, oversampling 1, 2, "
          "4, any values; sampling positions")
def k1(b):
    M = b.mod(PP + "kernels")
    W, OS = b.pick("W", [1, 3, 5]), b.pick("OS", [1, 2, 4])
    n = OS * (W + 2)
    K = b.reals("K", (n,))
    keep = keepall(b, K=K)
    p = M.pack_kernel(K, W, OS)
    b.same("shape", tuple(p.shape), (n,))
    for i in range(n):
        b.eq("packed", p[(i % OS) * (W + 2) + i // OS], K[i])
    b.eq("round trip", M.unpack_kernel(p, W, OS), K)
    q = M.unpack_kernel(K, W, OS)
    b.eq("round trip 2", M.pack_kernel(q, W, OS), K)
    u = M.uspace(W, OS)
    b.same("positions", len(u), n)
    for i in range(n):
        b.eq("position", u[i], b.q(i, OS) - (W + 2) // 2)
    b.raises("even width", AssertionError, lambda: M.uspace(W + 1, OS))
    keep()


@scenario("G05", "windows", bounds="1, 3 or 5 taps, oversampling 1, 2, 4 "
          "(hanning: (1,1), (1,2), (3,1)); any hanning coefficient in [1/4, 1]")
def k2(b):
    import numpy
    M = b.mod(PP + "kernels")
    which = b.pick("which", ["sinc", "hanning"])
    W, OS = b.pick("W", [(1, 1), (1, 2), (3, 1)] +
                   ([(3, 2), (5, 1), (5, 2), (5, 4)] if which == "sinc"
                    else []))
    n = OS * (W + 2)
    u = [Fraction(i, OS) - (W + 2) // 2 for i in range(n)]
    sinc = M.sinc(W, oversample=OS)
    b.same("shape", tuple(sinc.shape), (n,))
    if which == "sinc":
        eps = b.q(1, 10 ** 9)
        raw = [Fraction(float(x)) for x in
               numpy.sinc(numpy.array([float(x) for x in u]))]
        tot = sum(raw)
        for i in range(n):
            d = sinc[i] - b.q(raw[i] / tot)
            b.true("tap", b.all(d <= eps, d >= -eps))
        return
    a = b.real("a", Fraction(1, 4), 1)
    r = M.hanningsinc(W, a=a, oversample=OS)
    b.same("shape", tuple(r.shape), (n,))
    raw = [sinc[i] * (a + (1 - a) * b.np.cos(2 * b.pi * b.q(u[i]) / (W + 3)))
           for i in range(n)]
    tot = sum(raw[1:], raw[0])
    for i in range(n):
        b.eq("tap", r[i] * tot, raw[i])


def spectrum(b, K, u, npix):
    """K is 2d: [(re, im)] of its transform at each pixel"""
    np = b.np
    out = {}
    n = len(u)
    for y, x in itertools.product(range(npix), range(npix)):
        re = im = 0
        for i, j in itertools.product(range(n), range(n)):
            a = 2 * b.pi * b.q(Fraction(y - npix // 2, npix) * u[i] +
                               Fraction(x - npix // 2, npix) * u[j])
            re = re + K[i, j] * np.cos(a)
            im = im - K[i, j] * np.sin(a)
        out[y, x] = re, im
    return out


def detaper_1d(b, dims):
    M = b.mod(PP + "kernels")
    np = b.np
    npix, OS = b.pick("dims", dims)
    W = 1
    n = OS * (W + 2)
    K = b.reals("K", (n,))
    sep = M.compute_detaper_dft_seperable(npix, K, W, OS)
    b.same("shape", tuple(sep.shape), (npix, npix))
    u = [Fraction(i, OS) - (W + 2) // 2 for i in range(n)]
    F = []
    for l in range(npix):
        a = [2 * b.pi * b.q(Fraction(l - npix // 2, npix) * x) for x in u]
        F.append((sum(K[i] * np.cos(a[i]) for i in range(n)),
                  sum(K[i] * np.sin(a[i]) for i in range(n))))
    for y, x in itertools.product(range(npix), range(npix)):
        p = F[y][0] ** 2 + F[y][1] ** 2
        q = F[x][0] ** 2 + F[x][1] ** 2
        b.eq("squared", sep[y, x] * sep[y, x], p * q)
        b.true("sign", sep[y, x] >= 0)


@scenario("G05", "detaper", bounds="images of 1..3 pixels, 1 tap, "
          "oversampling 1, any kernel: separable transform")
def k3(b):
    detaper_1d(b, [(1, 1), (2, 1), (3, 1)])


@scenario("G05", "detaper_deep", bounds="images of 2 and 4 "
          "pixels, 1 tap, oversampling 1..2, any kernel: separable")
def k3b(b):
    detaper_1d(b, [(2, 2), (4, 1)])


def detaper_2d(b, sizes):
    M = b.mod(PP + "kernels")
    npix = b.pick("npix", sizes)
    K = b.reals("K", (3, 3))
    r = M.compute_detaper_dft(npix, K, 1, 1)
    b.same("shape", tuple(r.shape), (npix, npix))
    for ix, (re, im) in spectrum(b, K, [-1, 0, 1], npix).items():
        b.eq("squared", r[ix] * r[ix], re * re + im * im)
        b.true("sign", r[ix] >= 0)


@scenario("G05", "detaper_2d", bounds="images of 1 or 2 pixels, a 3x3 "
          "kernel of any values (1 tap, no oversampling)")
def k4(b):
    detaper_2d(b, [1, 2])


@scenario("G05", "detaper_2d_deep", tier="thorough", bounds="images of 4 "
          "pixels, a 3x3 kernel of any values")
def k4b(b):
    detaper_2d(b, [4])


def detaper_fft(b, dims):
    M = b.mod(PP + "kernels")
    npix, OS, n = b.pick("dims", dims)
    # two samples: their interference shows where the kernel was placed
    i, j = b.pick("at", [(i, j) for i in range(n) for j in range(n)])
    K = b.np.zeros((n, n))
    K[n // 2, n // 2] = b.real("k0", Fraction(1, 4), 2)
    K[i, j] = b.real("k1", Fraction(1, 4), 2)
    keep = keepall(b, K=K)
    r = M.compute_detaper(npix, K, 1, OS)
    b.same("shape", tuple(r.shape), (npix, npix))
    u = [Fraction(i - OS * (n // OS // 2), OS) for i in range(n)]
    for ix, (re, im) in spectrum(b, K, u, npix).items():
        b.eq("squared", r[ix] * r[ix], re * re + im * im)
        b.true("sign", r[ix] >= 0)
    keep()


@scenario("G05", "detaper_fft", bounds="images of 3 or 4 pixels, a "
          "kernel of 2 or 3 samples with the centre and any other one in "
          "[1/4, 2], oversampling 1 or 2: transform of the padded kernel")
def k5(b):
    detaper_fft(b, [(3, 1, 3), (4, 1, 3), (4, 2, 2)])


@scenario("G05", "detaper_fft_deep", tier="thorough", bounds="images of 4 "
          "and 6 pixels, oversampling 2 and 1, kernels of 6 and 3 samples, "
          "two of them not zero")
def k5b(b):
    detaper_fft(b, [(6, 1, 3), (4, 2, 6)])


@contextlib.contextmanager
def bessel(b):
    """a polynomial in place of scipy's Bessel function of the first kind"""
    import scipy.special as S

    def jn(n, x):
        return 1 + n * b.q(1, 7) + b.q(1, 3) * x + (1 + n) * x * x
    old = {k: getattr(S, k) for k in ("jn", "jv")}
    m = b.mod(PP + "kernels")
    mine = {k: v for k, v in vars(m).items()
            if any(v is o for o in old.values())}
    try:
        for k in old:
            setattr(S, k, jn)
        for k in mine:
            setattr(m, k, jn)
        yield jn
    finally:
        for k, v in old.items():
            setattr(S, k, v)
        for k, v in mine.items():
            setattr(m, k, v)


@scenario("G05", "kaiser_bessel", bounds="1 or 3 taps, oversampling 1 or 2, "
          "to one part in 10^9, any window parameter in [1/2, 4] or the fitted one, orders 0 and 1 or "
          "the default; the Bessel function is a stand-in polynomial "
          "that differs in order and argument")
def k6(b):
    M = b.mod(PP + "kernels")
    W, OS = b.pick("W", [(1, 1), (1, 2), (3, 2)])
    n = OS * (W + 2)
    order = b.pick("order", [None, 0, 1])
    kw = {} if order is None else {"order": order}
    if b.bool("fitted"):
        import numpy
        x = [1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 5.0]
        y = [1.9980, 2.3934, 3.3800, 4.2054, 4.9107, 5.7567, 6.6291, 7.4302]
        p = numpy.polyfit(x, y, 1)
        beta = b.q(Fraction(float(p[0])) * (W + 2) + Fraction(float(p[1])))
    else:
        beta = b.real("beta", Fraction(1, 2), 4)
        kw["b"] = beta
    eps = b.q(1, 10 ** 9)
    with bessel(b) as jn:
        r = M.kbsinc(W, oversample=OS, **kw)
    b.same("shape", tuple(r.shape), (n,))
    sinc = M.sinc(W, oversample=OS)
    raw = []
    for i in range(n):
        u = Fraction(i, OS) - (W + 2) // 2
        x = beta * b.q(Fraction(math.sqrt(1 - (2 * u / (W + 3)) ** 2)))
        raw.append(sinc[i] * jn(15 if order is None else order, x))
    tot = sum(raw[1:], raw[0])
    for i in range(n):
        d = r[i] * tot - raw[i]
        b.true("tap", b.all(d <= eps, d >= -eps))


# ------------------------------------------------------------------- dask
def dask_inputs(b, nr, nc, nf):
    """rows of baselines near the centre cell of a 3x3 grid"""
    lam = b.farr([1, 2][:nc])
    cell = b.real("cell", 1, 100)
    uvw = b.farr([[metres(b, b.real("e%d" % r, Fraction(1, 20),
                                    Fraction(2, 20)), b.q(1), 3, cell),
                   metres(b, -b.real("f%d" % r, Fraction(1, 20),
                                     Fraction(2, 20)), b.q(1), 3, cell),
                   b.real("w%d" % r, -5, 5)] for r in range(nr)])
    a = [b.real("a%d" % i, -1, 1) for i in range(nf)]
    for x in a:
        b.assume(b.np.cos(x) >= b.q(1, 2))
    cen = b.farr([[x, 0] for x in a])
    c0 = (0.0, 0.0)
    return lam, cell, uvw, cen, c0


@scenario("G06", "degridder", bounds="2 facets, 2 rows, 2 channels in 2 "
          "bands; every chunking of rows, channels, facets; bands and pixels "
          "whole or split; phase rotation on or off, serial and row parallel")
def d1(b):
    M = b.mod(PP + "degridder")
    D = b.mod(PP + "dask").degridder
    nr, nc, nf = 2, 2, 2
    lam, cell, uvw, cen, c0 = dask_inputs(b, nr, nc, nf)
    grid = b.cplxs("grid", (nf, 2, 3, 3))
    K = b.reals("K", (6,), lo=Fraction(1, 2), hi=2)
    ax = b.pick("axis", ["row", "chan", "facet", "band", "pix", "all"])
    two = (1, 1)
    cr = two if ax in ("row", "all") else (2,)
    cc = two if ax in ("chan", "all") else (2,)
    cf = two if ax in ("facet", "all") else (2,)
    cb = two if ax in ("band", "all") else (2,)
    cx = (1, 2) if ax in ("pix", "all") else (3,)
    rot = "phase_rotate" if b.bool("rot") else "None"
    par = b.bool("rowparallel")
    cm = b.np.array([1, 0])
    a = (K, 1, 2, "None", rot, "XXYY_FROM_Q",
         "conv_1d_axisymmetric_unpacked_gather")
    keep = keepall(b, uvw=uvw, grid=grid)
    d = D(b.dask(uvw, (cr, (3,))), b.dask(grid, (cf, cb, cx, cx)),
          b.dask(lam, (cc,)), b.dask(cm, (cc,)), cell,
          b.dask(cen, (cf, (2,))), c0, *a, rowparallel=par)
    r = b.compute(d)
    b.same("shape", tuple(d.shape), (nr, nc, 2))
    b.same("chunks", tuple(d.chunks), (cr, cc, (2,)))
    b.same("dtype", str(d.dtype), "complex128")
    w = 0
    for f in range(nf):
        w = w + M.degridder(uvw, grid[f], lam, cm, cell, cen[f], c0, *a)
    b.eq("sum over facets", r, w)
    keep()


@scenario("G06", "gridder", bounds="2 facets, 3 rows, 2 channels in 2 bands; "
          "every chunking of rows, channels and facets, phase rotation on or "
          "off; not normalised")
def d2(b):
    G = b.mod(PP + "gridder").gridder
    D = b.mod(PP + "dask").gridder
    nr, nc, nf = 3, 2, 2
    lam, cell, uvw, cen, c0 = dask_inputs(b, nr, nc, nf)
    vis = b.cplxs("vis", (nr, nc, 2))
    K = b.reals("K", (6,), lo=Fraction(1, 2), hi=2)
    cr = b.pick("cr", parts(nr))
    cc, cf, ck = b.pick("c", [((2,), (2,), (2,)), ((1, 1), (2,), (2,)),
                              ((2,), (1, 1), (2,)), ((2,), (2,), (1, 1)),
                              ((1, 1), (1, 1), (1, 1))])
    rot = "phase_rotate" if b.bool("rot") else "None"
    cm = b.np.array([1, 0])
    a = (K, 1, 2, "None", rot, "U_FROM_RLLR",
         "conv_1d_axisymmetric_unpacked_scatter")
    keep = keepall(b, uvw=uvw, vis=vis)
    d = D(b.dask(uvw, (cr, (3,))), b.dask(vis, (cr, cc, ck)),
          b.dask(lam, (cc,)), b.dask(cm, (cc,)), 3, cell,
          b.dask(cen, (cf, (2,))), c0, *a)
    r = b.compute(d)
    b.same("shape", tuple(d.shape), (nf, 1, 2, 3, 3))
    b.same("dtype", str(d.dtype), "complex128")
    for f in range(nf):
        b.eq("facet", r[f, 0], G(uvw, vis, lam, cm, 3, cell, cen[f], c0, *a))
    keep()


@scenario("G06", "gridder_normalised", bounds="1 facet, 1..2 rows, 1 channel;"
          " row chunks averaged")
def d3(b):
    G = b.mod(PP + "gridder").gridder
    D = b.mod(PP + "dask").gridder
    nr = 2
    lam, cell, uvw, cen, c0 = dask_inputs(b, nr, 1, 1)
    vis = b.cplxs("vis", (nr, 1, 2))
    K = b.reals("K", (6,), lo=Fraction(1, 2), hi=2)
    cr = b.pick("cr", [(2,), (1, 1)])
    cm = b.np.array([0])
    a = (K, 1, 2, "None", "None", "I_FROM_XXYY",
         "conv_1d_axisymmetric_unpacked_scatter")
    d = D(b.dask(uvw, (cr, (3,))), b.dask(vis, (cr, (1,), (2,))),
          b.dask(lam, ((1,),)), b.dask(cm, ((1,),)), 3, cell,
          b.dask(cen, ((1,), (2,))), c0, *a, do_normalize=True)
    r = b.compute(d)
    o = 0
    w = []
    for k in cr:
        w.append(G(uvw[o:o + k], vis[o:o + k], lam, cm, 3, cell, cen[0], c0,
                   *a, do_normalize=True))
        o += k
    b.eq("mean", r[0, 0] * len(w), w[0] if len(w) == 1 else w[0] + w[1])


@scenario("G06", "refusals", bounds="mismatched chunks of channels and rows, "
          "wrong numbers of facets or coordinates")
def d4(b):
    W = b.mod(PP + "dask")
    what = b.pick("what", ["lam", "chanmap", "uvw", "centres", "centre",
                           "grid"])
    lam, cell, uvw, cen, c0 = dask_inputs(b, 2, 2, 2)
    vis = b.cplxs("vis", (2, 2, 2))
    grid = b.cplxs("grid", (2, 1, 3, 3))
    K = b.reals("K", (6,))
    one, two = (2,), (1, 1)
    cm = b.dask(b.np.array([0, 0]), (two if what == "chanmap" else one,))
    l = b.dask(lam, (two if what == "lam" else one,))
    u = b.dask(uvw, (two if what == "uvw" else one, (3,)))
    a = (K, 1, 2, "None", "None")
    if what in ("lam", "chanmap", "uvw"):
        b.raises("gridder " + what, ValueError, lambda: W.gridder(
            u, b.dask(vis, (one, one, one)), l, cm, 3, cell,
            b.dask(cen, (one, one)), c0, *a, "I_FROM_XXYY",
            "conv_1d_axisymmetric_unpacked_scatter"))
        return
    c = cen
    g = grid
    if what == "centre":
        c = b.reals("c3", (2, 3))
    elif what == "centres":
        c = b.reals("c1", (3, 2))
    else:
        g = grid[0]
    b.raises("degridder " + what, ValueError, lambda: W.degridder(
        u, b.dask(g, tuple((n,) for n in g.shape)), l, cm, cell,
        b.dask(c, tuple((n,) for n in c.shape)), c0, *a, "XXYY_FROM_I",
        "conv_1d_axisymmetric_unpacked_gather"))
