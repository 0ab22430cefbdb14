"""L01 Kronecker algebra, H01 Hogbom clean."""
import numpy as np
from engine.harness import scenario
from .common import keepall


def b_frac(p, q):
    from fractions import Fraction
    return Fraction(p, q)


def aoa(mats):
    """array of arrays"""
    o = np.empty(len(mats), dtype=object)
    for i, m in enumerate(mats):
        o[i] = m
    return o


def dense(b, mats):
    """the full Kronecker product as nested lists"""
    full = [[1]]
    for m in mats:
        r, c = m.shape
        full = [[full[i][j] * m[k, l] for j in range(len(full[0]))
                 for l in range(c)]
                for i in range(len(full)) for k in range(r)]
    return full


def mvec(full, v):
    out = []
    for row in full:
        s = 0
        for a, x in zip(row, v):
            s = s + a * x
        out.append(s)
    return out


SQ = [(1,), (3,), (2, 2), (2, 3), (3, 2), (1, 3), (2, 1, 2), (2, 2, 2)]
NSQ = [((2, 3),), ((3, 1), (1, 2)), ((2, 3), (3, 2)), ((1, 2), (3, 2)),
       ((2, 1), (1, 3), (2, 2)), ((2, 3), (2, 2)), ((1, 2), (2, 1), (3, 2))]


@scenario("L01", "matvec", bounds="1..3 square factors up to 3x3 (8 shapes), "
          "real or complex")
def s1(b):
    k = b.mod("africanus.linalg.kronecker_tools")
    dims = b.pick("dims", SQ)
    cx = b.bool("complex")
    gen = b.cplxs if cx else b.reals
    ms = [gen("A%d" % i, (n, n)) for i, n in enumerate(dims)]
    N = int(np.prod(dims))
    v = gen("v", (N,))
    ok = keepall(b, v=v, **{"A%d" % i: m for i, m in enumerate(ms)})
    A = aoa(ms)
    b.same("N", k.kron_N(A), N)
    dt = "complex128" if cx else "float64"
    want = b.farr(mvec(dense(b, ms), list(v)), dt)
    b.eq("matvec", k.kron_matvec(A, v), want)
    b.eq("tensorvec", k.kron_tensorvec(A, v), want)
    ok()


@scenario("L01", "matmat", bounds="1..3 square factors up to 3x3, 1..2 right "
          "hand columns, real or complex")
def s2(b):
    k = b.mod("africanus.linalg.kronecker_tools")
    dims = b.pick("dims", SQ[:7])
    cx = b.bool("complex")
    gen = b.cplxs if cx else b.reals
    ms = [b.reals("A%d" % i, (n, n)) for i, n in enumerate(dims)]
    N = int(np.prod(dims))
    nc = b.pick("nc", [1, 2])
    B = gen("B", (N, nc))
    ok = keepall(b, B=B)
    A = aoa(ms)
    full = dense(b, ms)
    want = b.np.stack([b.farr(mvec(full, list(B[:, c])),
                              "complex128" if cx else "float64")
                       for c in range(nc)], axis=1)
    b.eq("matmat", k.kron_matmat(A, B), want)
    b.eq("tensormat", k.kron_tensormat(A, B), want)
    ok()


@scenario("L01", "rectangular", bounds="1..3 rectangular factors up to 3x3 "
          "(7 shape combinations), 2 right hand columns")
def s3(b):
    k = b.mod("africanus.linalg.kronecker_tools")
    dims = b.pick("dims", NSQ)
    ms = [b.reals("A%d" % i, d) for i, d in enumerate(dims)]
    nin = int(np.prod([d[1] for d in dims]))
    v = b.reals("v", (nin,))
    A = aoa(ms)
    full = dense(b, ms)
    b.eq("tensorvec", k.kron_tensorvec(A, v),
         b.farr(mvec(full, list(v)), "float64"))
    B = b.reals("B", (nin, 2))
    want = b.np.stack([b.farr(mvec(full, list(B[:, c])), "float64")
                       for c in range(2)], axis=1)
    b.eq("tensormat", k.kron_tensormat(A, B), want)


@scenario("L01", "wide", bounds="two diagonal-banded factors with product of "
          "dimensions up to 144 (beyond 8-bit range)")
def s4(b):
    k = b.mod("africanus.linalg.kronecker_tools")
    d = b.pick("dims", [((2, 12), (3, 12)), ((12, 2), (12, 3)),
                        ((1, 130),), ((130, 1),)])
    # one symbolic entry per row / column keeps the sums short
    ms = []
    for i, (r, c) in enumerate(d):
        v = b.reals("A%d" % i, (max(r, c),))
        ms.append(b.farr([[v[max(p, q)] if p % c == q % r or p == q else 0
                           for q in range(c)] for p in range(r)], "float64"))
    nin = int(np.prod([x[1] for x in d]))
    v = b.reals("v", (nin,))
    b.eq("tensorvec", k.kron_tensorvec(aoa(ms), v),
         b.farr(mvec(dense(b, ms), list(v)), "float64"))


@scenario("L01", "cholesky", bounds="1..2 positive definite factors up to "
          "2x2 (3x3 thorough)")
def s5(b):
    k = b.mod("africanus.linalg.kronecker_tools")
    dims = b.pick("dims", [(1,), (2,), (2, 1), (2, 2)])
    ms, ls = [], []
    for i, n in enumerate(dims):
        L = [[b.real("L%d_%d%d" % (i, p, q), 0 if p == q else None)
              if q <= p else b.q(0) for q in range(n)] for p in range(n)]
        for p in range(n):
            b.assume(L[p][p] > b.q(1, 10))
        ls.append(L)
        rows = [[sum((L[p][t] * L[q][t] for t in range(n)), b.q(0))
                 for q in range(n)] for p in range(n)]
        ms.append(b.farr(rows, "float64"))
    if len(set(dims)) == 1 and b.bool("stacked"):
        A = b.np.stack(ms)
    else:
        A = aoa(ms)
    ok = keepall(b, **{"A%d" % i: m for i, m in enumerate(ms)})
    R = k.kron_cholesky(A)
    b.same("factors", len(R), len(dims))
    for i, n in enumerate(dims):
        for p in range(n):
            for q in range(n):
                b.eq("factor", R[i][p, q], ls[i][p][q])
    ok()


@scenario("L01", "cholesky_singular", bounds="a rank one 2x2 factor beside a "
          "positive one: factored to within 1e-9")
def s5b(b):
    k = b.mod("africanus.linalg.kronecker_tools")
    x = b.real("x", b_frac(1, 2), 2)
    y = b.real("y", -2, 2)
    one = b.real("one", b_frac(1, 10), 4)
    ms = [b.farr([[x * x, x * y], [x * y, y * y]], "float64"),
          b.farr([[one]], "float64")]
    if b.bool("swap"):
        ms = ms[::-1]
    R = k.kron_cholesky(aoa(ms))
    eps = b.q(1, 10 ** 9)
    for m, L in zip(ms, R):
        n = m.shape[0]
        for p in range(n):
            for q in range(n):
                d = sum((L[p, t] * L[q, t] for t in range(n)),
                        b.q(0)) - m[p, q]
                b.true("product", b.all(d <= eps, d >= -eps))
                if q > p:
                    b.eq("lower triangular", L[p, q], 0)


# ------------------------------------------------------------------ hogbom
def clean_ref(b, dirty, psf, gamma, thr, niter):
    """textbook Hogbom loop on nested lists"""
    n = dirty.shape[0]
    res = [[dirty[i, j] for j in range(n)] for i in range(n)]
    cl = [[b.q(0) for j in range(n)] for i in range(n)]

    def peak():
        best = None
        for i in range(n):
            for j in range(n):
                if best is None or res[i][j] > res[best[0]][best[1]]:
                    best = (i, j)
        return best
    p, q = peak()
    lim = thr * abs(res[p][q])
    it = 0
    while it < niter:
        v = res[p][q]
        if not abs(v) > lim:
            break
        cl[p][q] = cl[p][q] + v * gamma
        for i in range(n):
            for j in range(n):
                res[i][j] = res[i][j] - gamma * v * psf[n - 1 - p + i,
                                                        n - 1 - q + j]
        p, q = peak()
        it += 1
    return cl, res, it


def distinct(b, dirty):
    n = dirty.shape[0]
    f = [dirty[i, j] for i in range(n) for j in range(n)]
    for i in range(len(f)):
        for j in range(i):
            b.assume(b.any([f[i] > f[j], f[i] < f[j]]))


@scenario("H01", "conservation", bounds="1x1, 2x2 images, any image, beam, "
          "gain and threshold, 0..2 iterations (2x2: 0..1; distinct pixels, "
          "ties thorough)")
def h1(b):
    h = b.mod("africanus.deconv.hogbom.clean")
    n = b.pick("n", [1, 2])
    niter = b.pick("niter", [0, 1, 2] if n == 1 else [0, 1])
    dirty = b.reals("dirty", (n, n), lo=-10, hi=10)
    if b.tier == "quick":
        distinct(b, dirty)
    psf = b.reals("psf", (2 * n, 2 * n), lo=-1, hi=1)
    gamma = b.real("gamma", 0, 1)
    thr = b.real("thr", 0, 1)
    ok = keepall(b, dirty=dirty, psf=psf)
    cl, res = h.hogbom_clean(dirty, psf, gamma=gamma, threshold=thr,
                             niter=niter)
    b.same("shape", cl.shape, (n, n))
    # dirty = residual + model convolved with the beam
    for i in range(n):
        for j in range(n):
            s = res[i, j]
            for p in range(n):
                for q in range(n):
                    s = s + cl[p, q] * psf[n - 1 - p + i, n - 1 - q + j]
            b.eq("dirty = residual + model * beam", s, dirty[i, j])
    if niter == 0:
        b.eq("no iterations, no model", cl, cl * 0)
    ok()


@scenario("H01", "steps", bounds="1x1 and 2x2 images with distinct pixels; "
          "up to 2 iterations (1 on 2x2; 2 thorough); peak, component, "
          "residual, stop rule")
def h2(b):
    h = b.mod("africanus.deconv.hogbom.clean")
    n = b.pick("n", [1, 2])
    niter = b.pick("niter", [1, 2, 3] if n == 1 else
                   ([1] if b.tier == "quick" else [1, 2]))
    dirty = b.reals("dirty", (n, n), lo=-10, hi=10)
    distinct(b, dirty)
    psf = b.reals("psf", (2 * n, 2 * n), lo=-1, hi=1)
    gamma, thr = b.pick("gt", [(b.q(1, 2), b.q(1, 4)),
                               (b.q(1, 10), b.q(1, 1000))]
                        if n == 1 or b.tier != "quick" else
                        [(b.q(1, 2), b.q(1, 4))])
    cl, res = h.hogbom_clean(dirty, psf, gamma=gamma, threshold=thr,
                             niter=niter)
    rcl, rres, it = clean_ref(b, dirty, psf, gamma, thr, niter)
    b.eq("model", cl, b.farr(rcl, "float64"))
    b.eq("residual", res, b.farr(rres, "float64"))


@scenario("H01", "defaults", bounds="1x1 image: default gain 0.1, default "
          "threshold 0.2 of the peak, default limit 3*npix iterations")
def h3(b):
    h = b.mod("africanus.deconv.hogbom.clean")
    dirty = b.reals("dirty", (1, 1), lo=-10, hi=10)
    psf = b.reals("psf", (2, 2), lo=0, hi=1)
    cl, res = h.hogbom_clean(dirty, psf)
    rcl, rres, it = clean_ref(b, dirty, psf, b.q(1, 10), b.q(1, 5), 3)
    b.eq("model", cl, b.farr(rcl, "float64"))
    b.eq("residual", res, b.farr(rres, "float64"))


@scenario("H01", "delta_beam", bounds="2x2 image, ideal delta beam, gain g: "
          "each step removes g of the maximum pixel and nothing else; 1..2 "
          "iterations (3 thorough)")
def h4(b):
    h = b.mod("africanus.deconv.hogbom.clean")
    dirty = b.reals("dirty", (2, 2), lo=0, hi=10)
    distinct(b, dirty)
    psf = b.farr([[1 if (i, j) == (1, 1) else 0 for j in range(4)]
                  for i in range(4)], "float64")
    niter = b.pick("niter", [1, 2] if b.tier == "quick" else [1, 2, 3])
    cl, res = h.hogbom_clean(dirty, psf, gamma=b.q(1, 4),
                             threshold=b.q(1, 100), niter=niter)
    b.eq("flux conserved", cl + res, dirty)
    tot = b.q(0)
    for i in range(2):
        for j in range(2):
            b.true("no over-subtraction", res[i, j] >= 0)
            b.true("non-negative model", cl[i, j] >= 0)


@scenario("H01", "rejects", bounds="beam shape other than twice the image")
def h5(b):
    h = b.mod("africanus.deconv.hogbom.clean")
    n = b.pick("n", [1, 2, 3])
    sy = b.pick("sy", [1, 2, 3, 4, 5, 6])
    sx = b.pick("sx", [1, 2, 3, 4, 5, 6])
    dirty = b.reals("dirty", (n, n))
    psf = b.reals("psf", (sy, sx))
    if (sy, sx) != (2 * n, 2 * n):
        b.raises("psf size", ValueError,
                 lambda: h.hogbom_clean(dirty, psf))
    else:
        b.true("accepted", True)


@scenario("H01", "gaussian", bounds="elliptical Gaussian of any amplitude, "
          "centre, widths, angle and offset at 2 points: symmetric about the "
          "centre, peak value amplitude+offset")
def h6(b):
    h = b.mod("africanus.deconv.hogbom.clean")
    amp, off = b.real("amp", 0, 10), b.real("off", -1, 1)
    xo, yo = b.real("xo", -5, 5), b.real("yo", -5, 5)
    sx, sy = b.real("sx", 1, 5), b.real("sy", 1, 5)
    th = b.real("th", -3, 3)
    d = b.reals("d", (2,), lo=-5, hi=5)
    x = b.farr([[xo, xo + d[0], xo - d[0]]], "float64")
    y = b.farr([[yo, yo + d[1], yo - d[1]]], "float64")
    r = h.twod_gaussian((x, y), amp, xo, yo, sx, sy, th, off)
    b.same("shape", r.shape, (3,))
    b.eq("peak", r[0], amp + off)
    b.eq("point symmetry", r[1], r[2])


@scenario("H01", "gaussian_formula", bounds="elliptical Gaussian of any "
          "amplitude, centre, widths, angle and offset at any point: widths "
          "along the axes rotated by the angle")
def h7(b):
    h = b.mod("africanus.deconv.hogbom.clean")
    b.expand_angles()
    amp, off = b.real("amp", 0, 10), b.real("off", -1, 1)
    xo, yo = b.real("xo", -5, 5), b.real("yo", -5, 5)
    sx, sy = b.real("sx", 1, 5), b.real("sy", 1, 5)
    th = b.real("th", -3, 3)
    x = b.reals("x", (1, 2), lo=-5, hi=5)
    y = b.reals("y", (1, 2), lo=-5, hi=5)
    r = h.twod_gaussian((x, y), amp, xo, yo, sx, sy, th, off)
    c, s = b.np.cos(th), b.np.sin(th)
    for i in range(2):
        dx, dy = x[0, i] - xo, y[0, i] - yo
        u, v = c * dx - s * dy, s * dx + c * dy
        b.eq("value", r[i], off + amp * b.np.exp(
            -(u * u / (2 * sx * sx) + v * v / (2 * sy * sy))))


def _convolve(np_, a, k, mode="full", **kw):
    """the convolution of two images, by its definition"""
    (p, q), (r, s) = a.shape, k.shape
    full = {}
    for i in range(p):
        for j in range(q):
            for u in range(r):
                for v in range(s):
                    key = i + u, j + v
                    full[key] = full.get(key, 0) + a[i, j] * k[u, v]
    if mode == "full":
        shape, off = (p + r - 1, q + s - 1), (0, 0)
    elif mode == "same":
        shape, off = (p, q), ((r - 1) // 2, (s - 1) // 2)
    else:
        shape = abs(p - r) + 1, abs(q - s) + 1
        off = min(p, r) - 1, min(q, s) - 1
    out = np_.zeros(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            out[i, j] = full[i + off[0], j + off[1]]
    return out


@scenario("H01", "restore", bounds="images of 1..2 x 1..2 pixels of any value, "
          "any 3 psf values, two fitted beams: the model convolved with the "
          "beam of unit peak, plus the residuals; the fit sees the psf above "
          "half its peak")
def h8(b):
    import scipy.optimize
    import scipy.signal
    h = b.mod("africanus.deconv.hogbom.clean")
    n = b.int("n", 1, 2)
    N = 2 * n
    psf = b.copy(b.farr([[0.0] * N] * N))
    c = (n, n)
    psf[c] = 1.0
    where = [(0, 0), (n, n - 1), (n - 1, n)]
    vals = b.reals("psf", (3,), lo=-1, hi=0.9)
    for i, w in enumerate(where):
        psf[w] = vals[i]
    clean = b.reals("clean", (n, n), lo=-1, hi=1)
    res = b.reals("res", (n, n), lo=-1, hi=1)
    popt = b.pick("fit", [(0.75, 1.0, 2.0, 2.0, 1.0, 0.0, 0.125),
                          (3.0, 0.5, 1.25, 0.5, 2.0, 0.0, 0.0)])
    fits = []

    def curve_fit(f, xdata, ydata, *a, **k):
        fits.append((xdata, ydata))
        return np.array(popt), np.eye(7)
    old = {}
    patches = [(scipy.optimize, "curve_fit", curve_fit)]
    if b.symbolic:
        for name in ("fftconvolve", "convolve", "convolve2d", "oaconvolve"):
            patches.append((scipy.signal, name, lambda a, k, mode="full",
                            **kw: _convolve(b.np, a, k, mode)))
    try:
        for o, name, f in patches:
            old[name] = (o, getattr(o, name))
            setattr(o, name, f)
        keep = b.copy(clean), b.copy(psf), b.copy(res)
        got, model = h.restore(clean, psf, res)
    finally:
        for name, (o, f) in old.items():
            setattr(o, name, f)
    b.eq("inputs untouched", (clean, psf, res), keep)
    b.eq("restored", got, model + res)
    (x, y), data = fits[0]
    beam = b.np.zeros((N, N))
    amp, xo, yo, sx, sy, th, off = popt
    for k in range(N * N):
        xx, yy = float(np.ravel(x)[k]), float(np.ravel(y)[k])
        i, j = divmod(k, N)
        b.same("coordinates of the fit", sorted((xx, yy)),
               sorted((float(i), float(j))))
        v = psf[i, j]
        b.eq("main lobe", data[k], v if bool(v >= 0.5) else 0)
        dx, dy = xx - xo, yy - yo
        beam[i, j] = off + amp * b.np.exp(b.farr([-(
            dx * dx / (2 * sx * sx) + dy * dy / (2 * sy * sy))]))[0]
    beam = beam / b.np.max(beam)
    b.eq("convolved model", model, _convolve(b.np, clean, beam, "same"))
