"""G01 frequency-binned w-gridding, G02 its dask version."""
from fractions import Fraction
import multiprocessing
import numpy as np
from engine.harness import scenario
from checks.common import parts, keepall
from checks import stubs

NX, NY = 2, 4
EPS = 1e-7


def bins(c):
    return (np.concatenate([[0], np.cumsum(c)[:-1]]).astype(np.int64),
            np.array(c, dtype=np.int64))


def degrid(b, uvw, freq, img, wgt, flag, cx, cy, wst):
    re, im = stubs.dft_dirty2ms(b.np, b.pi, uvw, freq, img, wgt, cx, cy,
                                mask=flag, do_wstacking=wst)
    return re, im


class V:
    """a complex pair understood by the reference gridder"""
    def __init__(self, re, im):
        self.real, self.imag = re, im


def grid(b, uvw, freq, vis, wgt, flag, cx, cy, wst, nx=NX, ny=NY):
    return stubs.dft_ms2dirty(b.np, b.pi, uvw, freq, vis, wgt, nx, ny, cx,
                              cy, mask=flag, do_wstacking=wst)


def dat(b, nr, nc, prec="double"):
    uvw = b.reals("uvw", (nr, 3), -40, 40)
    freq = b.reals("nu", (nc,), 5 * 10 ** 8, 2 * 10 ** 9)
    for i in range(nc - 1):     # ducc0 requires ascending frequencies
        b.assume(freq[i] + 1000 <= freq[i + 1])
    cell = b.real("cell", Fraction(1, 1000), Fraction(1, 100))
    return uvw, freq, cell


def opts(b, nr, nc, flags=True):
    w = b.reals("wgt", (nr, nc)) if b.bool("have_w") else None
    fl = b.bools("flag", (nr, nc), "uint8") if flags and b.bool("have_f") \
        else None
    kw = dict(weights=w, flag=fl)
    cy = b.real("celly", Fraction(1, 1000), Fraction(1, 100)) if b.bool("have_cy") \
        else None
    if cy is not None:
        kw["celly"] = cy
    wst = b.pick("wst", [None, True, False])
    if wst is not None:
        kw["do_wstacking"] = wst
    return kw, w, fl, cy, wst is not False


def check_opts(b, kw, op="ms2dirty"):
    seen = [c for c in stubs.CALLS]
    b.true("gridder called", len(seen) > 0)
    for n, o in seen:
        b.same(n + " epsilon", o["epsilon"], kw.get("epsilon", 1e-5))
        nt = kw.get("nthreads", 1)
        if nt:
            b.same(n + " nthreads", o["nthreads"], nt)
        else:
            # all threads: 0 to the gridder, or their number
            b.same(n + " all threads", o["nthreads"] in
                   (0, multiprocessing.cpu_count()), True)
        if n == "ms2dirty":
            b.same("accumulation",
                   bool(o["double_precision_accumulation"]),
                   kw.get("double_accum", False))


def sl(x, i, c):
    return None if x is None else x[:, i:i + c]


def band_ref(b, op, uvw, freq, img, vis, wgt, fl, cx, cy, wst, comp):
    """documented result for every band, from the definition of R"""
    idx, cnt = bins(comp)
    out = []
    nr = uvw.shape[0]
    V_ = np.zeros((nr, freq.shape[0]), dtype=object)
    for k, (i, c) in enumerate(zip(idx, cnt)):
        i, c = int(i), int(c)
        f = freq[i:i + c]
        w, m = sl(wgt, i, c), sl(fl, i, c)
        if op == "dirty":
            out.append(grid(b, uvw, f, vis[:, i:i + c], w, m, cx, cy, wst))
            continue
        re, im = degrid(b, uvw, f, img[k], w if op == "model" else None, m,
                        cx, cy, wst)
        if op == "model":
            for r in range(nr):
                for j in range(c):
                    V_[r, i + j] = re[r, j] + im[r, j] * 1j
            continue
        d = np.empty((nr, c), dtype=object)
        for r in range(nr):
            for j in range(c):
                if op == "hessian":
                    d[r, j] = V(re[r, j], im[r, j])
                else:
                    v = vis[r, i + j]
                    d[r, j] = V(v.real - re[r, j], v.imag - im[r, j])
        out.append(grid(b, uvw, f, d, w, m, cx, cy, wst))
    if op == "model":
        return b.farr(V_, "complex128")
    return b.farr(np.array(out, dtype=object))


def call(b, mods, op, uvw, freq, img, vis, idx, cnt, cell, kw):
    if op == "dirty":
        return mods.dirty(uvw, freq, vis, idx, cnt, NX, NY, cell, **kw)
    if op == "model":
        return mods.model(uvw, freq, img, idx, cnt, cell, **kw)
    if op == "residual":
        return mods.residual(uvw, freq, img, vis, idx, cnt, cell, **kw)
    return mods.hessian(uvw, freq, img, idx, cnt, cell, **kw)


def mk(op):
    @scenario("G01", op + "_bands", bounds="2 rows, 3 channels in every band "
              "partition, 2x4 pixels, optional weights, unequal cells, w "
              "stacking on/off; any uvw/frequency/cell in range")
    def f(b):
        m = b.mod("africanus.gridding.wgridder")
        del stubs.CALLS[:]
        b.rtol = b.atol = 1e-5
        comp = b.pick("comp", parts(3))
        uvw, freq, cell = dat(b, 2, 3)
        kw, w, fl, cy, wst = opts(b, 2, 3, flags=False)
        img = b.reals("img", (len(comp), NX, NY)) if op != "dirty" else None
        vis = b.cplxs("vis", (2, 3)) if op in ("dirty", "residual") else None
        kw["epsilon"] = EPS
        if op != "model" and b.bool("acc"):
            kw["double_accum"] = True
        if op == "residual" or op == "dirty":
            kw["nthreads"] = 2
        idx, cnt = bins(comp)
        ok = keepall(b, uvw=uvw, freq=freq, img=img, vis=vis, w=w, idx=idx,
                     cnt=cnt)
        r = call(b, m, op, uvw, freq, img, vis, idx, cnt, cell, kw)
        check_opts(b, kw)
        want = band_ref(b, op, uvw, freq, img, vis, w, fl, cell,
                        cell if cy is None else cy, wst, comp)
        b.eq(op, r, want)
        b.same("dtype", str(r.dtype), "complex128" if op == "model"
               else "float64")
        ok()

    @scenario("G01", op + "_flags", bounds="2 rows, 2 channels, every flag "
              "pattern, optional weights, every band partition")
    def g(b):
        m = b.mod("africanus.gridding.wgridder")
        del stubs.CALLS[:]
        b.rtol = b.atol = 1e-5
        comp = b.pick("comp", parts(2))
        uvw, freq, cell = dat(b, 2, 2)
        fl = b.bools("flag", (2, 2), "uint8")
        w = b.reals("wgt", (2, 2)) if b.bool("have_w") else None
        img = b.reals("img", (len(comp), NX, NY)) if op != "dirty" else None
        vis = b.cplxs("vis", (2, 2)) if op in ("dirty", "residual") else None
        kw = dict(weights=w, flag=fl, epsilon=EPS)
        idx, cnt = bins(comp)
        ok = keepall(b, fl=fl, img=img, vis=vis)
        r = call(b, m, op, uvw, freq, img, vis, idx, cnt, cell, kw)
        want = band_ref(b, op, uvw, freq, img, vis, w, fl, cell, cell, True,
                        comp)
        b.eq(op, r, want)
        ok()

    @scenario("G01", op + "_single_precision", bounds="defaults; 2 rows, "
              "2 channels, 1 band; single precision data")
    def h(b):
        m = b.mod("africanus.gridding.wgridder")
        del stubs.CALLS[:]
        b.rtol = b.atol = 1e-3
        uvw, freq, cell = dat(b, 2, 2)
        img = b.reals("img", (1, NX, NY), dtype="float32") \
            if op != "dirty" else None
        vis = b.cplxs("vis", (2, 2), dtype="complex64") \
            if op in ("dirty", "residual") else None
        idx, cnt = bins((2,))
        w = b.reals("wgt", (2, 2), dtype="float32")
        nt = b.pick("nt", [1, 3, 0, None])
        r = call(b, m, op, uvw, freq, img, vis, idx, cnt, cell,
                 dict(weights=w, nthreads=nt))
        check_opts(b, dict(nthreads=nt))
        b.same("dtype", str(r.dtype), "complex64" if op == "model"
               else "float32")
        b.eq(op, r, band_ref(b, op, uvw, freq, img, vis, w, None, cell,
                             cell, True, (2,)))

    @scenario("G02", op + "_chunks", bounds="3 rows in every chunking, "
              "3 channels / 1..3 bands with every band chunking, optional "
              "weights, flags (fixed pattern)")
    def d(b):
        m = b.mod("africanus.gridding.wgridder")
        dm = b.mod("africanus.gridding.wgridder.dask")
        b.rtol = b.atol = 1e-5
        comp = b.pick("comp", [(3,), (1, 2), (2, 1), (1, 1, 1)])
        nb = len(comp)
        cr = b.pick("cr", parts(3) if b.tier != "quick" or nb < 3
                    else [(1, 2), (1, 1, 1)])
        cb = b.pick("cb", parts(nb))
        k, cf = 0, []
        for c in cb:
            cf.append(sum(comp[k:k + c]))
            k += c
        cf = tuple(cf)
        uvw, freq, cell = dat(b, 3, 3)
        w = b.reals("wgt", (3, 3)) if b.bool("have_w") else None
        fl = np.array([[1, 0, 1], [0, 1, 1], [1, 1, 0]], dtype=np.uint8) \
            if b.bool("have_f") else None
        img = b.reals("img", (nb, NX, NY)) if op != "dirty" else None
        vis = b.cplxs("vis", (3, 3)) if op in ("dirty", "residual") else None
        idx, cnt = bins(comp)
        kw = dict(epsilon=EPS, nthreads=2)
        if b.tier != "quick" or nb == 1:
            wst = b.pick("wst", [True, False])
            kw["do_wstacking"] = wst
            if b.bool("have_cy"):
                kw["celly"] = b.real("celly", Fraction(1, 1000), Fraction(1, 100))
        if op != "model":
            kw["double_accum"] = True
        want = call(b, m, op, uvw, freq, img, vis, idx, cnt, cell,
                    dict(kw, weights=w, flag=fl))
        del stubs.CALLS[:]

        def dk(x, ch):
            return None if x is None else b.dask(x, ch)
        C2 = ((NX,), (NY,))
        r = call(b, dm, op, dk(uvw, (cr, (3,))), dk(freq, (cf,)),
                 dk(img, (cb,) + C2), dk(vis, (cr, cf)),
                 dk(idx, (cb,)), dk(cnt, (cb,)), cell,
                 dict(kw, weights=dk(w, (cr, cf)), flag=dk(fl, (cr, cf))))
        b.same("shape", r.shape, want.shape)
        b.same("dtype", str(r.dtype), str(want.dtype))
        got = b.compute(r)
        check_opts(b, kw)
        b.eq("dask = numpy", got, want)


for op_ in ("dirty", "model", "residual", "hessian"):
    mk(op_)


@scenario("G02", "single_precision_chunks", bounds="all four operations, "
          "2 rows and 2 channels/bands, one per chunk, single precision, "
          "default options, 1/3/0 threads")
def sp(b):
    m = b.mod("africanus.gridding.wgridder")
    dm = b.mod("africanus.gridding.wgridder.dask")
    b.rtol = b.atol = 1e-3
    op = b.pick("op", ["dirty", "model", "residual", "hessian"])
    uvw, freq, cell = dat(b, 2, 2)
    img = b.reals("img", (2, NX, NY), dtype="float32")
    vis = b.cplxs("vis", (2, 2), dtype="complex64")
    idx, cnt = bins((1, 1))
    nt = b.pick("nt", [1, 3, 0, None])
    kw = dict(nthreads=nt)
    want = call(b, m, op, uvw, freq, img, vis, idx, cnt, cell, kw)
    del stubs.CALLS[:]
    o = (1, 1)
    r = call(b, dm, op, b.dask(uvw, (o, (3,))), b.dask(freq, (o,)),
             b.dask(img, (o, (NX,), (NY,))), b.dask(vis, (o, o)),
             b.dask(idx, (o,)), b.dask(cnt, (o,)), cell, kw)
    b.same("declared dtype", str(r.dtype), str(want.dtype))
    got = b.compute(r)
    check_opts(b, kw)
    b.same("dtype", str(got.dtype), str(want.dtype))
    b.eq("dask = numpy", got, want)
