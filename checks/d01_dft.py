"""D01: direct Fourier transforms."""
import itertools
from engine.harness import scenario
from checks.common import parts, keepall
from checks.r03_phase import phase, lm_inputs, C_LIGHT


def fwd(b, image, uvw, lm, nu, conv):
    """sum over sources of exp(s 2 pi i (ul+vm+w(n-1)) nu/c) I"""
    sg = 1 if conv == "casa" else -1
    ns, nc, nk = image.shape
    out = {}
    for r, c, k in itertools.product(range(len(uvw)), range(nc), range(nk)):
        re = im = 0
        for s in range(ns):
            cs, sn = phase(b, lm[s], uvw[r], nu[c], sg)
            x, y = image[s, c, k].real, image[s, c, k].imag
            re = re + cs * x - sn * y
            im = im + cs * y + sn * x
        out[r, c, k] = re, im
    return out


def bwd(b, vis, uvw, lm, nu, flags, conv):
    sg = -1 if conv == "casa" else 1
    nr, nc, nk = vis.shape
    out = {}
    for s, c, k in itertools.product(range(len(lm)), range(nc), range(nk)):
        t = 0
        for r in range(nr):
            if any(bool(flags[r, c, q]) for q in range(nk)):
                continue
            cs, sn = phase(b, lm[s], uvw[r], nu[c], sg)
            t = t + cs * vis[r, c, k].real - sn * vis[r, c, k].imag
        out[s, c, k] = t
    return out


def im_inputs(b, ns, nc, nk, cx):
    return (b.cplxs if cx else b.reals)("image", (ns, nc, nk))


@scenario("D01", "image_to_vis", bounds="1..2 sources, rows, channels and "
          "correlations (5 shapes), real or complex images, both conventions")
def s1(b):
    f = b.mod("africanus.dft.kernels").im_to_vis
    ns, nr, nc, nk = b.pick("dims", [(1, 1, 1, 1), (2, 1, 1, 1), (1, 2, 2, 1),
                                     (2, 2, 1, 1), (1, 1, 2, 2)])
    cx = b.bool("complex")
    image = im_inputs(b, ns, nc, nk, cx)
    uvw = b.reals("uvw", (nr, 3))
    lm = lm_inputs(b, "lm", ns)
    nu = b.reals("nu", (nc,)) * C_LIGHT
    conv = b.pick("conv", [None, "fourier", "casa"])
    ok = keepall(b, image=image, uvw=uvw, lm=lm, nu=nu)
    r = f(image, uvw, lm, nu) if conv is None else \
        f(image, uvw, lm, nu, convention=conv)
    b.same("shape", r.shape, (nr, nc, nk))
    b.same("dtype", str(r.dtype), "complex128")
    for ix, (re, im) in fwd(b, image, uvw, lm, nu, conv).items():
        b.eq("re", r[ix].real, re)
        b.eq("im", r[ix].imag, im)
    ok()


@scenario("D01", "vis_to_image", bounds="1..2 sources, rows, channels and "
          "correlations (5 shapes), every flag pattern, both conventions")
def s2(b):
    f = b.mod("africanus.dft.kernels").vis_to_im
    ns, nr, nc, nk = b.pick("dims", [(1, 1, 1, 1), (2, 1, 1, 2), (1, 2, 2, 1),
                                     (1, 2, 1, 2), (2, 2, 1, 1)])
    cx = b.bool("complex")
    vis = (b.cplxs if cx else b.reals)("vis", (nr, nc, nk))
    uvw = b.reals("uvw", (nr, 3))
    lm = lm_inputs(b, "lm", ns)
    nu = b.reals("nu", (nc,)) * C_LIGHT
    fl = b.bools("flag", (nr, nc, nk))
    conv = b.pick("conv", [None, "fourier", "casa"])
    ok = keepall(b, vis=vis, uvw=uvw, lm=lm, nu=nu)
    r = f(vis, uvw, lm, nu, fl) if conv is None else \
        f(vis, uvw, lm, nu, fl, convention=conv)
    b.same("shape", r.shape, (ns, nc, nk))
    b.same("dtype", str(r.dtype), "float64")
    for ix, t in bwd(b, vis, uvw, lm, nu, fl, conv).items():
        b.eq("pixel", r[ix], t)
    ok()


@scenario("D01", "adjoint", bounds="2 sources, 1..2 rows, 1 channel, real "
          "image: <A x, y> = <x, A^H y>; both conventions")
def s3(b):
    m = b.mod("africanus.dft.kernels")
    nr = b.int("nr", 1, 2)
    x = b.reals("x", (2, 1, 1))
    for s in range(2):
        b.assume(b.any(x[s, 0, 0] > 0, x[s, 0, 0] < 0))
    y = b.cplxs("y", (nr, 1, 1))
    uvw = b.reals("uvw", (nr, 3))
    lm = lm_inputs(b, "lm", 2)
    nu = b.reals("nu", (1,)) * C_LIGHT
    conv = b.pick("conv", ["fourier", "casa"])
    ax = m.im_to_vis(x, uvw, lm, nu, convention=conv)
    ay = m.vis_to_im(y, uvw, lm, nu, b.np.zeros((nr, 1, 1), bool),
                     convention=conv)
    lhs = rhs = 0
    for r in range(nr):
        lhs = lhs + ax[r, 0, 0].real * y[r, 0, 0].real + \
            ax[r, 0, 0].imag * y[r, 0, 0].imag
    for s in range(2):
        rhs = rhs + x[s, 0, 0] * ay[s, 0, 0]
    b.eq("adjoint", lhs, rhs)
    z = m.im_to_vis(x, b.np.zeros((1, 3)), lm, nu, convention=conv)
    b.eq("zero spacing sums the image", z[0, 0, 0].real,
         x[0, 0, 0] + x[1, 0, 0])


@scenario("D01", "refusals", bounds="unknown conventions")
def s4(b):
    m = b.mod("africanus.dft.kernels")
    x = b.reals("x", (1, 1, 1))
    uvw = b.reals("uvw", (1, 3))
    lm = lm_inputs(b, "lm", 1)
    nu = b.reals("nu", (1,)) * C_LIGHT
    bad = b.pick("bad", ["Fourier", "CASA", "", "wsclean"])
    b.raises("im_to_vis", ValueError,
             lambda: m.im_to_vis(x, uvw, lm, nu, convention=bad))
    b.raises("vis_to_im", ValueError,
             lambda: m.vis_to_im(x, uvw, lm, nu, b.np.zeros((1, 1, 1), bool),
                                 convention=bad))


@scenario("D01", "types", bounds="every mixture of 32/64 bit inputs")
def s4b(b):
    m = b.mod("africanus.dft.kernels")
    k = [b.pick("t%d" % i, ["float32", "float64"]) for i in range(4)]
    x = b.reals("x", (1, 1, 1), dtype=k[0])
    uvw = b.reals("uvw", (1, 3), dtype=k[1])
    lm = b.reals("lm", (1, 2), dtype=k[2])
    b.assume(lm[0, 0] ** 2 + lm[0, 1] ** 2 <= 1)
    nu = b.reals("nu", (1,), dtype=k[3])
    wide = "float64" in k
    b.same("visibility type", str(m.im_to_vis(x, uvw, lm, nu).dtype),
           "complex128" if wide else "complex64")
    b.same("image type", str(m.vis_to_im(
        x, uvw, lm, nu, b.np.zeros((1, 1, 1), bool)).dtype),
        "float64" if wide else "float32")


def dinputs(b, ns, nr, nc):
    lm = lm_inputs(b, "lm", ns)
    return b.reals("uvw", (nr, 3)), lm, b.reals("nu", (nc,)) * C_LIGHT


@scenario("D01", "dask_image_to_vis", bounds="2 sources, 2 rows, 2 channels; "
          "every chunking of rows and channels; chunked sources or mismatched "
          "channels are refused")
def s5(b):
    f = b.mod("africanus.dft.kernels").im_to_vis
    g = b.mod("africanus.dft.dask").im_to_vis
    ns, nr, nc = 2, 2, 2
    uvw, lm, nu = dinputs(b, ns, nr, nc)
    image = b.reals("image", (ns, nc, 1), lo=1, hi=10)
    cr, cc = b.pick("cr", parts(nr)), b.pick("cc", parts(nc))
    cs, cl = b.pick("cs", parts(ns)), b.pick("cl", parts(ns))
    ci = b.pick("ci", parts(nc))
    conv = b.pick("conv", ["fourier", "casa"])

    def run():
        return g(b.dask(image, (cs, ci, (1,))), b.dask(uvw, (cr, (3,))),
                 b.dask(lm, (cl, (2,))), b.dask(nu, (cc,)), convention=conv)
    if len(cs) > 1 or len(cl) > 1 or ci != cc:
        b.raises("unsupported chunking", ValueError, run)
        return
    d = run()
    r = b.compute(d)
    w = f(image, uvw, lm, nu, convention=conv)
    b.same("shape", tuple(d.shape), tuple(w.shape))
    b.same("chunks", tuple(d.chunks), (cr, cc, (1,)))
    b.same("dtype", str(d.dtype), str(w.dtype))
    b.eq("dask == numpy", r, w)


@scenario("D01", "dask_vis_to_image", bounds="2 sources, 3 rows, 2 channels; "
          "every chunking of rows, sources and channels; mismatches refused")
def s6(b):
    f = b.mod("africanus.dft.kernels").vis_to_im
    g = b.mod("africanus.dft.dask").vis_to_im
    ns, nr, nc = 2, 3, 2
    uvw, lm, nu = dinputs(b, ns, nr, nc)
    vis = b.cplxs("vis", (nr, nc, 1))
    fl = b.np.zeros((nr, nc, 1), bool)
    k = b.int("flagged", -1, nr * nc - 1)
    if k >= 0:
        fl[k // nc, k % nc, 0] = True
    cr, cc = b.pick("cr", parts(nr)), b.pick("cc", parts(nc))
    cs = b.pick("cs", parts(ns))
    conv = b.pick("conv", ["fourier", "casa"])
    bad = b.pick("bad", [None, "uvw", "nu", "flag"])
    oth = {(3,): (1, 2), (1, 1, 1): (3,), (1, 2): (2, 1), (2, 1): (3,),
           (2,): (1, 1), (1, 1): (2,)}

    def run():
        return g(b.dask(vis, (cr, cc, (1,))),
                 b.dask(uvw, (oth[cr] if bad == "uvw" else cr, (3,))),
                 b.dask(lm, (cs, (2,))),
                 b.dask(nu, (oth[cc] if bad == "nu" else cc,)),
                 b.dask(fl, (oth[cr] if bad == "flag" else cr, cc, (1,))),
                 convention=conv)
    if bad:
        b.raises("unsupported chunking", ValueError, run)
        return
    d = run()
    r = b.compute(d)
    w = f(vis, uvw, lm, nu, fl, convention=conv)
    b.same("shape", tuple(d.shape), tuple(w.shape))
    b.same("chunks", tuple(d.chunks), (cs, cc, (1,)))
    b.same("dtype", str(d.dtype), str(w.dtype))
    b.eq("dask == numpy", r, w)
