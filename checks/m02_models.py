"""M02 spectral models, M03 gaussian shapes, M05 spectral index fits,
R07 wsclean component spectra."""
import itertools
from fractions import Fraction as Fr
from engine.harness import scenario
from checks.common import parts, keepall

C_LIGHT = 299792458
LO = Fr(1, 10)


def power(b, base, x, y):
    """flux of one polarisation"""
    np = b.np
    i0, alphas, ratio = x, y, base[1]
    kind = base[0]
    if kind == "std":
        t = i0
        for a in alphas:
            t = t * np.exp(a * np.log(ratio))
        return t
    # log and log10 polynomials of the same family:
    # log: I0 * exp(sum a_k ln(r)^k), log10: I0 * 10^(sum a_k log10(r)^k)
    s = 0
    lr = np.log(ratio)
    ten = np.log(b.farr([10])[0]) if kind == "log10" else None
    for k, a in enumerate(alphas, 1):
        p = 1
        for _ in range(k):
            p = p * (lr / ten if ten is not None else lr)
        s = s + a * p
    return i0 * np.exp(s * ten if ten is not None else s)


NAMES = {0: "std", 1: "log", 2: "log10"}


@scenario("M02", "flat", bounds="1..2 sources, 1..2 channels, 1..2 spectral "
          "terms, no polarisation axis; each base by name or number")
def s1(b):
    f = b.mod("africanus.model.spectral.spec_model").spectral_model
    ns, nc, nt = b.pick("dims", [(1, 1, 1), (2, 1, 2), (1, 2, 2), (1, 1, 3)])
    base = b.pick("base", [None, 0, 1, 2, "std", "log", "log10"])
    kind = NAMES.get(base or 0, base) if not isinstance(base, str) else base
    st = b.reals("stokes", (ns,), lo=LO if kind != "std" else -10, hi=10)
    spi = b.reals("spi", (ns, nt), lo=-3, hi=3)
    rf = b.reals("rf", (ns,), lo=LO, hi=10)
    nu = b.reals("nu", (nc,), lo=LO, hi=10)
    ok = keepall(b, st=st, spi=spi, rf=rf, nu=nu)
    r = f(st, spi, rf, nu) if base is None else f(st, spi, rf, nu, base=base)
    b.same("shape", r.shape, (ns, nc))
    for s, c in itertools.product(range(ns), range(nc)):
        b.eq("flux", r[s, c], power(b, (kind, nu[c] / rf[s]), st[s],
                                    [spi[s, k] for k in range(nt)]))
    ok()


@scenario("M02", "polarised", bounds="1 source, 1..2 channels, 1..2 terms, "
          "1..3 polarisations; one base or a list of bases shorter, equal "
          "or longer than the polarisations, names or numbers")
def s2(b):
    f = b.mod("africanus.model.spectral.spec_model").spectral_model
    nc, nt, npol = b.pick("dims", [(1, 1, 1), (2, 1, 2), (1, 2, 2),
                                   (1, 1, 3)])
    k = b.int("k", 0, 3)
    names = b.bool("names")
    if k == 0:
        base = b.pick("b0", [0, 1, 2])
        per = [base] * npol
    else:
        base = [b.pick("b%d" % i, [0, 1, 2]) for i in range(k)]
        per = (base + [base[-1]] * npol)[:npol]
    if names:
        base = NAMES[base] if k == 0 else [NAMES[x] for x in base]
    st = b.reals("stokes", (1, npol), lo=LO, hi=10)
    spi = b.reals("spi", (1, nt, npol), lo=-3, hi=3)
    rf = b.reals("rf", (1,), lo=LO, hi=10)
    nu = b.reals("nu", (nc,), lo=LO, hi=10)
    r = f(st, spi, rf, nu, base=base)
    b.same("shape", r.shape, (1, nc, npol))
    for c, p in itertools.product(range(nc), range(npol)):
        b.eq("flux", r[0, c, p], power(
            b, (NAMES[per[p]], nu[c] / rf[0]), st[0, p],
            [spi[0, t, p] for t in range(nt)]))


@scenario("M02", "reference", bounds="1..2 polarisations, 1..2 terms: at the "
          "reference frequency the flux is the given one, for every base")
def s3(b):
    f = b.mod("africanus.model.spectral.spec_model").spectral_model
    npol, nt = b.int("npol", 1, 2), b.int("nt", 1, 2)
    base = b.pick("base", [0, 1, 2])
    st = b.reals("stokes", (1, npol), lo=LO, hi=10)
    spi = b.reals("spi", (1, nt, npol), lo=-3, hi=3)
    rf = b.reals("rf", (1,), lo=LO, hi=10)
    r = f(st, spi, rf, b.copy(rf), base=base)
    for p in range(npol):
        b.eq("reference flux", r[0, 0, p], st[0, p])


@scenario("M02", "numpy", bounds="the plain numpy version: 1..2 sources and "
          "channels, 1..2 terms, 0..2 polarisations; one base or a list up to "
          "as long as the polarisations, names or numbers")
def s3b(b):
    f = b.mod("africanus.model.spectral.spec_model").numpy_spectral_model
    ns, nc, nt, npol = b.pick("dims", [(2, 1, 2, 0), (1, 2, 2, 1),
                                       (2, 2, 1, 2), (1, 1, 2, 2)])
    n = max(npol, 1)
    k = b.int("k", 0, n)
    base = [b.pick("b%d" % i, [0, 1, 2]) for i in range(max(k, 1))]
    per = (base + [base[-1]] * n)[:n]
    if b.bool("names"):
        base = [NAMES[x] for x in base]
    base = base if k else base[0]
    ps = (npol,) if npol else ()
    st = b.reals("stokes", (ns,) + ps, lo=LO, hi=10)
    spi = b.reals("spi", (ns, nt) + ps, lo=-3, hi=3)
    rf = b.reals("rf", (ns,), lo=LO, hi=10)
    nu = b.reals("nu", (nc,), lo=LO, hi=10)
    ok = keepall(b, st=st, spi=spi, rf=rf, nu=nu)
    r = f(st, spi, rf, nu, base=base)
    b.same("shape", r.shape, (ns, nc) + ps)
    for s, c, p in itertools.product(range(ns), range(nc), range(n)):
        ix = (p,) if npol else ()
        b.eq("flux", r[(s, c) + ix], power(
            b, (NAMES[per[p]], nu[c] / rf[s]), st[(s,) + ix],
            [spi[(s, t) + ix] for t in range(nt)]))
    ok()


@scenario("M02", "refusals", bounds="polarisation mismatch, unknown bases")
def s4(b):
    f = b.mod("africanus.model.spectral.spec_model").spectral_model
    rf = b.reals("rf", (1,), lo=LO, hi=10)
    nu = b.reals("nu", (1,), lo=LO, hi=10)
    kind = b.pick("kind", ["ndim", "npol", "base", "name"])
    if kind == "ndim":
        a, c = b.pick("nd", [((1,), (1, 1, 1)), ((1, 1), (1, 1))])
    elif kind == "npol":
        a, c = b.pick("np", [((1, 2), (1, 1, 1)), ((1, 1), (1, 2, 2))])
    else:
        a, c = (1, 1), (1, 1, 1)
    st, spi = b.reals("st", a, lo=LO, hi=9), b.reals("spi", c, lo=-1, hi=1)
    base = {"base": 3, "name": "ln"}.get(kind, 0)
    b.raises("refused", ValueError, lambda: f(st, spi, rf, nu, base=base))


@scenario("M02", "dask", bounds="2 sources, 2 channels, 2 terms, 0..2 "
          "polarisations in every chunking; base number or list; chunked "
          "spectral terms are refused")
def s5(b):
    f = b.mod("africanus.model.spectral.spec_model").spectral_model
    g = b.mod("africanus.model.spectral.dask").spectral_model
    pol = b.pick("pol", [0, 2])
    pd, cp = (), ()
    base = b.pick("base", [0, 2])
    if pol:
        base = b.pick("lbase", [base, [base, 1], [1, base]])
        pd, cp = (2,), (b.pick("cp", parts(2)),)
    cs, cc, ct = (b.pick("c" + k, parts(2)) for k in "sct")
    st = b.reals("stokes", (2,) + pd, lo=LO, hi=10)
    spi = b.reals("spi", (2, 2) + pd, lo=-3, hi=3)
    rf = b.reals("rf", (2,), lo=LO, hi=10)
    nu = b.reals("nu", (2,), lo=LO, hi=10)

    def run():
        return g(b.dask(st, (cs,) + cp), b.dask(spi, (cs, ct) + cp),
                 b.dask(rf, (cs,)), b.dask(nu, (cc,)), base=base)
    if len(ct) > 1:
        b.raises("chunked terms", ValueError, run)
        return
    d = run()
    w = f(st, spi, rf, nu, base=base)
    b.same("shape", tuple(d.shape), tuple(w.shape))
    b.same("dtype", str(d.dtype), str(w.dtype))
    b.eq("dask == numpy", b.compute(d), w)


@scenario("M02", "types", bounds="every mixture of 32/64 bit inputs, numpy "
          "and dask")
def s6(b):
    f = b.mod("africanus.model.spectral.spec_model").spectral_model
    g = b.mod("africanus.model.spectral.dask").spectral_model
    k = [b.pick("t%d" % i, ["float32", "float64"]) for i in range(4)]
    st = b.reals("stokes", (1,), lo=LO, hi=10, dtype=k[0])
    spi = b.reals("spi", (1, 1), lo=-3, hi=3, dtype=k[1])
    rf = b.reals("rf", (1,), lo=LO, hi=10, dtype=k[2])
    nu = b.reals("nu", (1,), lo=LO, hi=10, dtype=k[3])
    want = "float64" if "float64" in k else "float32"
    b.same("numpy", str(f(st, spi, rf, nu).dtype), want)
    d = g(b.dask(st, ((1,),)), b.dask(spi, ((1,), (1,))),
          b.dask(rf, ((1,),)), b.dask(nu, ((1,),)))
    b.same("dask", str(d.dtype), want)


# ---------------------------------------------------------------- M03
@scenario("M03", "definition", bounds="1..2 sources, 1..2 rows, 1..2 "
          "channels, any axes (zero included), angle, uvw and frequency")
def g1(b):
    f = b.mod("africanus.model.shape.gaussian_shape").gaussian
    np = b.np
    ns, nr, nc = b.pick("dims", [(1, 1, 1), (2, 1, 1), (1, 2, 2)])
    sp = b.reals("shape", (ns, 3), lo=0, hi=1)
    uvw = b.reals("uvw", (nr, 3), lo=-1000, hi=1000)
    nu = b.reals("nu", (nc,), lo=LO, hi=40) * C_LIGHT
    ok = keepall(b, sp=sp, uvw=uvw, nu=nu)
    r = f(uvw, nu, sp)
    b.same("shape", r.shape, (ns, nr, nc))
    ln2 = np.log(b.farr([2])[0])
    for s, t, c in itertools.product(range(ns), range(nr), range(nc)):
        maj, mnr, pa = sp[s]
        u, v, w = uvw[t]
        if maj == 0:
            b.eq("zero major axis: a point", r[s, t, c], b.q(1))
            continue
        # widths along the minor and the major axis
        x = (u * np.cos(pa) - v * np.sin(pa)) * mnr
        y = (u * np.sin(pa) + v * np.cos(pa)) * maj
        q = (b.pi * nu[c] / C_LIGHT) ** 2 * (x * x + y * y) / (4 * ln2)
        b.eq("gaussian", r[s, t, c], np.exp(-q))
    ok()


@scenario("M03", "symmetry", bounds="1 source, 1 row, 1 channel: 1 at the "
          "origin and for point sources; even in uv; independent of w")
def g2(b):
    f = b.mod("africanus.model.shape.gaussian_shape").gaussian
    sp = b.reals("shape", (1, 3), lo=LO, hi=1)
    uvw = b.reals("uvw", (1, 3), lo=-1000, hi=1000)
    nu = b.reals("nu", (1,), lo=LO, hi=40) * C_LIGHT
    r = f(uvw, nu, sp)
    b.eq("even", f(-uvw, nu, sp), r)
    o = b.copy(uvw)
    o[0, 2] = b.real("w2", -10, 10)
    b.eq("independent of w", f(o, nu, sp), r)
    z = b.farr([[0, 0, 0]])
    b.eq("origin", f(z, nu, sp)[0, 0, 0], b.q(1))


@scenario("M03", "dask", bounds="2 sources, 2 rows, 2 channels in every "
          "chunking")
def g3(b):
    f = b.mod("africanus.model.shape.gaussian_shape").gaussian
    g = b.mod("africanus.model.shape.dask").gaussian
    sp = b.reals("shape", (2, 3), lo=LO, hi=1)
    uvw = b.reals("uvw", (2, 3), lo=-1000, hi=1000)
    nu = b.reals("nu", (2,), lo=LO, hi=40) * C_LIGHT
    cs, cr, cc = (b.pick("c" + k, parts(2)) for k in "src")
    d = g(b.dask(uvw, (cr, (3,))), b.dask(nu, (cc,)),
          b.dask(sp, (cs, (3,))))
    w = f(uvw, nu, sp)
    b.same("chunks", tuple(d.chunks), (cs, cr, cc))
    b.same("dtype", str(d.dtype), str(w.dtype))
    b.eq("dask == numpy", b.compute(d), w)


# ---------------------------------------------------------------- R07
def comp_flux(b, i0, cf, logp, ratio):
    np = b.np
    if logp:
        s, lr = 0, np.log(ratio)
        for k, a in enumerate(cf, 1):
            p = 1
            for _ in range(k):
                p = p * lr
            s = s + a * p
        return i0 * np.exp(s)
    s = i0
    for k, a in enumerate(cf, 1):
        p = 1
        for _ in range(k):
            p = p * (ratio - 1)
        s = s + a * p
    return s


@scenario("R07", "spectra", bounds="1..2 sources, 1..2 channels, 0..3 "
          "coefficients of any sign, ordinary or logarithmic per source or "
          "for all")
def w1(b):
    f = b.mod("africanus.model.wsclean.spec_model").spectra
    ns, nc, nt = b.pick("dims", [(1, 1, 1), (2, 1, 2), (1, 2, 3), (2, 2, 1),
                                 (1, 1, 0)])
    kind = b.pick("kind", [True, False, "array"])
    lp = b.bools("log", (ns,)) if kind == "array" else kind
    st = b.reals("I", (ns,), lo=-10, hi=10)
    cf = b.reals("cf", (ns, nt), lo=-3, hi=3)
    rf = b.reals("rf", (ns,), lo=LO, hi=10)
    nu = b.reals("nu", (nc,), lo=LO, hi=10)
    ok = keepall(b, st=st, cf=cf, rf=rf, nu=nu)
    isl = [bool(lp[s]) if kind == "array" else kind for s in range(ns)]
    neg = [s for s in range(ns) if isl[s] and st[s] <= 0]
    if neg:
        b.raises("no logarithm of a non-positive flux", ValueError,
                 lambda: f(st, cf, lp, rf, nu))
        return
    r = f(st, cf, lp, rf, nu)
    b.same("shape", r.shape, (ns, nc))
    for s, c in itertools.product(range(ns), range(nc)):
        b.eq("flux", r[s, c], comp_flux(
            b, st[s], [cf[s, k] for k in range(nt)], isl[s], nu[c] / rf[s]))
    ok()


@scenario("R07", "numpy", bounds="the plain numpy versions: 1..2 sources and "
          "channels, 1..3 coefficients of any sign; logarithmic ones for "
          "sources flagged so")
def w1b(b):
    m = b.mod("africanus.model.wsclean.spec_model")
    ns, nc, nt = b.pick("dims", [(1, 1, 1), (2, 1, 2), (1, 2, 3), (2, 2, 1)])
    log = b.bool("logarithmic")
    st = b.reals("I", (ns,), lo=LO if log else -10, hi=10)
    cf = b.reals("cf", (ns, nt), lo=-3, hi=3)
    rf = b.reals("rf", (ns,), lo=LO, hi=10)
    nu = b.reals("nu", (nc,), lo=LO, hi=10)
    lp = b.bools("log", (ns,))
    ok = keepall(b, st=st, cf=cf, rf=rf, nu=nu)
    f = m.log_spectral_model if log else m.ordinary_spectral_model
    r = f(st, cf, lp, nu, rf)
    b.same("shape", r.shape, (ns, nc))
    for s, c in itertools.product(range(ns), range(nc)):
        if log and not lp[s]:
            continue
        b.eq("flux", r[s, c], comp_flux(
            b, st[s], [cf[s, k] for k in range(nt)], log, nu[c] / rf[s]))
    ok()


@scenario("R07", "refusals", bounds="1..2 sources: inconsistent lengths")
def w2(b):
    f = b.mod("africanus.model.wsclean.spec_model").spectra
    n = [b.int("n%d" % i, 1, 2) for i in range(4)]
    st = b.reals("I", (n[0],), lo=LO, hi=10)
    cf = b.reals("cf", (n[1], 1), lo=-3, hi=3)
    rf = b.reals("rf", (n[2],), lo=LO, hi=10)
    nu = b.reals("nu", (1,), lo=LO, hi=10)
    lp = b.np.zeros(n[3], dtype=bool)
    if len(set(n)) > 1:
        b.raises("lengths", ValueError, lambda: f(st, cf, lp, rf, nu))
    else:
        b.same("shape", f(st, cf, lp, rf, nu).shape, (n[0], 1))


@scenario("R07", "dask", bounds="2 sources, 2 channels, 2 coefficients in "
          "every chunking; log flag scalar or array; chunked coefficients "
          "are refused")
def w3(b):
    f = b.mod("africanus.model.wsclean.spec_model").spectra
    g = b.mod("africanus.model.wsclean.dask").spectra
    kind = b.pick("kind", [True, False, "array"])
    lp = b.bools("log", (2,)) if kind == "array" else kind
    st = b.reals("I", (2,), lo=LO, hi=10)
    cf = b.reals("cf", (2, 2), lo=-3, hi=3)
    rf = b.reals("rf", (2,), lo=LO, hi=10)
    nu = b.reals("nu", (2,), lo=LO, hi=10)
    cs, cc, ct = (b.pick("c" + k, parts(2)) for k in "sct")

    def run():
        return g(b.dask(st, (cs,)), b.dask(cf, (cs, ct)),
                 b.dask(lp, (cs,)) if kind == "array" else lp,
                 b.dask(rf, (cs,)), b.dask(nu, (cc,)))
    if len(ct) > 1:
        b.raises("chunked coefficients", ValueError, run)
        return
    d = run()
    w = f(st, cf, lp, rf, nu)
    b.same("shape", tuple(d.shape), tuple(w.shape))
    b.same("dtype", str(d.dtype), str(w.dtype))
    b.eq("dask == numpy", b.compute(d), w)


# ---------------------------------------------------------------- M05
def model(b, i0, al, ratio, bm):
    return i0 * bm * b.np.exp(al * b.np.log(ratio))


@scenario("M05", "exact_spectrum", bounds="1 component (2 thorough), 3 channels: data "
          "that follows the model exactly stays at its parameters with zero "
          "variance, with or without a beam")
def f1(b):
    f = b.mod("africanus.model.spi.component_spi").fit_spi_components
    ncp, nf = b.int("n", 1, 1 if b.tier == "quick" else 2), 3
    al = b.reals("alpha", (ncp,), lo=-2, hi=2)
    i0 = b.reals("i0", (ncp,), lo=LO, hi=10)
    fr = b.farr([Fr(9, 10), 1, Fr(6, 5)])
    wt = b.reals("w", (nf,), lo=LO, hi=4)
    beam = b.reals("beam", (ncp, nf), lo=LO, hi=1) if b.bool("beamed") \
        else None
    data = b.farr([[model(b, i0[k], al[k], fr[v],
                          beam[k, v] if beam is not None else 1)
                    for v in range(nf)] for k in range(ncp)])
    ok = keepall(b, al=al, i0=i0, wt=wt, beam=beam, data=data)
    r = f(data, wt, fr, b.farr([1])[0], alphai=al, I0i=i0, beam=beam)
    b.same("shape", r.shape, (4, ncp))
    for k in range(ncp):
        b.eq("alpha", r[0, k], al[k])
        b.eq("alpha variance", r[1, k], b.q(0))
        b.eq("intensity", r[2, k], i0[k])
        b.eq("intensity variance", r[3, k], b.q(0))
    ok()


def nearest(fr):
    return min(range(len(fr)), key=lambda v: abs(fr[v] - 1))


@scenario("M05", "one_step", bounds="1 component, 3 channels, any data; "
          "alpha 1 or -0.7 (default), with and without beam "
          "(alpha -1..1, any weights thorough): one iteration is the weighted "
          "Gauss-Newton step, variances are the inverse Hessian times the "
          "reduced chi squared; the default start is alpha=-0.7 and the "
          "intensity of the channel nearest to the reference",
          fork_timeout_ms=150)
def f2(b):
    f = b.mod("africanus.model.spi.component_spi").fit_spi_components
    np = b.np
    nf = 3
    fr = b.pick("freqs", [(Fr(4, 5), Fr(1, 2), 2),
                          (Fr(5, 8), Fr(5, 4), 2)])
    near = nearest(fr)
    if b.tier == "quick":
        wt = b.farr([1, 2, Fr(1, 2)])
    else:
        wt = b.reals("w", (nf,), lo=LO, hi=4)
    data = b.reals("data", (1, nf), lo=-10, hi=10)
    data[0, near] = b.q(2)
    beam = b.farr([[1, Fr(1, 2), Fr(3, 4)]]) if b.bool("beamed") else None
    st = b.pick("start", [None, 1] if b.tier == "quick" else
                [None, -1, 0, 1])
    al = b.q(st) if st is not None else b.q(-7, 10)
    bm = [beam[0, v] if beam is not None else b.q(1) for v in range(nf)]
    i0 = b.q(3) if st is not None else data[0, near] / bm[near]
    args = dict(alphai=b.farr([al]), I0i=b.farr([i0])) \
        if st is not None else {}
    ok = keepall(b, data=data, wt=wt, beam=beam)
    r = f(data, wt, b.farr(fr), b.farr([1])[0], beam=beam, maxiter=1, **args)
    ok()
    g1 = [bm[v] * np.exp(al * np.log(b.farr([fr[v]])[0])) for v in range(nf)]
    g0 = [i0 * g1[v] * np.log(b.farr([fr[v]])[0]) for v in range(nf)]
    rs = [data[0, v] - i0 * g1[v] for v in range(nf)]

    def dot(x, y):
        t = 0
        for v in range(nf):
            t = t + x[v] * wt[v] * y[v]
        return t
    h00, h01, h11 = dot(g0, g0), dot(g0, g1), dot(g1, g1)
    j0, j1, chi = dot(g0, rs), dot(g1, rs), dot(rs, rs)
    det = h00 * h11 - h01 * h01
    if det < b.q(1, 10 ** 12):
        b.true("nearly singular step not claimed", True)
        return
    b.eq("alpha", (r[0, 0] - al) * det, h11 * j0 - h01 * j1)
    b.eq("alpha variance", r[1, 0] * det, h11 * chi)
    b.eq("intensity", (r[2, 0] - i0) * det, h00 * j1 - h01 * j0)
    b.eq("intensity variance", r[3, 0] * det, h00 * chi)


@scenario("M05", "dask", bounds="2 components, 3 channels, any data, one "
          "iteration: every chunking of components with optional start "
          "values and beam; chunked channels are refused",
          fork_timeout_ms=150)
def f3(b):
    f = b.mod("africanus.model.spi.component_spi").fit_spi_components
    g = b.mod("africanus.model.spi.dask").fit_spi_components
    cc = b.pick("cc", parts(2))
    cf = [b.pick("cf%d" % i, [(3,), (1, 2)]) for i in range(3)]
    hasb, hasi = b.bool("beam"), b.bool("start")
    fr = b.farr([Fr(9, 10), 1, Fr(6, 5)])
    wt = b.farr([1, 2, Fr(1, 2)])
    al, i0 = b.farr([1, -1]), b.farr([2, 3])
    beam = b.farr([[1, Fr(1, 2), Fr(3, 4)], [Fr(1, 4), 1, 1]])
    data = b.reals("data", (2, 3), lo=-10, hi=10)
    data[0, 1] = b.q(4)
    data[1, 1] = b.q(1)
    if b.tier == "quick":
        data[1, 0], data[1, 2] = b.q(3), b.q(1, 2)
    f0 = b.farr([1])[0]
    kn, kd = {}, {}
    if hasb:
        kn["beam"], kd["beam"] = beam, (cc, cf[0])
    if hasi:
        kn["alphai"], kd["alphai"] = al, (cc,)
        kn["I0i"], kd["I0i"] = i0, (cc,)

    def run():
        return g(b.dask(data, (cc, cf[0])), b.dask(wt, (cf[1],)),
                 b.dask(fr, (cf[2],)), f0, maxiter=1, tol=1e-4,
                 **{k: b.dask(kn[k], c) for k, c in kd.items()})
    if any(c != (3,) for c in cf):
        b.raises("chunked channels", ValueError, run)
        return
    d = run()
    b.same("shape", tuple(d.shape), (4, 2))
    b.same("chunks", tuple(d.chunks), ((4,), cc))
    b.eq("dask == numpy", b.compute(d), f(data, wt, fr, f0, maxiter=1,
                                          tol=1e-4, **kn))


@scenario("R07", "types", bounds="every mixture of 32/64 bit inputs, numpy "
          "and dask")
def w4(b):
    f = b.mod("africanus.model.wsclean.spec_model").spectra
    g = b.mod("africanus.model.wsclean.dask").spectra
    k = [b.pick("t%d" % i, ["float32", "float64"]) for i in range(4)]
    st = b.reals("stokes", (1,), lo=LO, hi=10, dtype=k[0])
    cf = b.reals("cf", (1, 1), lo=-3, hi=3, dtype=k[1])
    rf = b.reals("rf", (1,), lo=LO, hi=10, dtype=k[2])
    nu = b.reals("nu", (1,), lo=LO, hi=10, dtype=k[3])
    want = "float64" if "float64" in k else "float32"
    b.same("numpy", str(f(st, cf, False, rf, nu).dtype), want)
    d = g(b.dask(st, ((1,),)), b.dask(cf, ((1,), (1,))), False,
          b.dask(rf, ((1,),)), b.dask(nu, ((1,),)))
    b.same("dask", str(d.dtype), want)
