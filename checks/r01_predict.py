"""R01 predict_vis evaluates the RIME; R02 dask version agrees."""
import itertools
from engine.harness import scenario
from checks.common import parts, mat, mm, madd, mH, ndfill, keepall

CORRS = {1: (1,), 2: (2,), 4: (2, 2)}
# presence of (ddes, source coherencies, dies, base visibilities)
COMBOS = [c for c in itertools.product([True, False], repeat=4)
          if c[0] or c[1] or c[3]]


def rime(ti, a1, a2, dde1, coh, dde2, die1, bv, die2, nchan, cs):
    """the measurement equation, written from its definition"""
    t0 = min(int(t) for t in ti)
    full = len(cs) == 2

    def vis(r, f):
        t, p, q = int(ti[r]) - t0, int(a1[r]), int(a2[r])
        if full:
            v = [[0, 0], [0, 0]]
            srcs = dde1.shape[0] if dde1 is not None else (
                coh.shape[0] if coh is not None else 0)
            for s in range(srcs):
                x = mat(coh[s, r, f]) if coh is not None else None
                if dde1 is not None:
                    e1 = mat(dde1[s, t, p, f])
                    e2 = mH(mat(dde2[s, t, q, f]))
                    x = mm(e1, mm(x, e2)) if x is not None else mm(e1, e2)
                v = madd(v, x)
            if bv is not None:
                v = madd(v, mat(bv[r, f]))
            if die1 is not None:
                v = mm(mat(die1[t, p, f]), mm(v, mH(mat(die2[t, q, f]))))
            return v
        v = [0] * cs[0]
        srcs = dde1.shape[0] if dde1 is not None else (
            coh.shape[0] if coh is not None else 0)
        for c in range(cs[0]):
            for s in range(srcs):
                x = coh[s, r, f, c] if coh is not None else 1
                if dde1 is not None:
                    x = dde1[s, t, p, f, c] * x * \
                        dde2[s, t, q, f, c].conjugate()
                v[c] = v[c] + x
            if bv is not None:
                v[c] = v[c] + bv[r, f, c]
            if die1 is not None:
                v[c] = die1[t, p, f, c] * v[c] * \
                    die2[t, q, f, c].conjugate()
        return v
    return [[vis(r, f) for f in range(nchan)] for r in range(len(ti))]


def inputs(b, combo, ns, nt, na, nr, nc, cs):
    dd, co, di, bv = combo
    x = dict(dde1_jones=None, source_coh=None, dde2_jones=None,
             die1_jones=None, base_vis=None, die2_jones=None)
    if dd:
        x["dde1_jones"] = b.cplxs("E1", (ns, nt, na, nc) + cs)
        x["dde2_jones"] = b.cplxs("E2", (ns, nt, na, nc) + cs)
    if co:
        x["source_coh"] = b.cplxs("X", (ns, nr, nc) + cs)
    if di:
        x["die1_jones"] = b.cplxs("G1", (nt, na, nc) + cs)
        x["die2_jones"] = b.cplxs("G2", (nt, na, nc) + cs)
    if bv:
        x["base_vis"] = b.cplxs("B", (nr, nc) + cs)
    return x


def ref(b, ti, a1, a2, x, nc, cs):
    return b.farr(rime(ti, a1, a2, x["dde1_jones"], x["source_coh"],
                       x["dde2_jones"], x["die1_jones"], x["base_vis"],
                       x["die2_jones"], nc, cs), "complex128")


def mk(nm, combos, ncorr):
    @scenario("R01", "rime_%s_%dcorr" % (nm, ncorr),
              bounds="%s; %d correlation(s); 2 sources, 2 times, 2 antennas,"
              " 2 rows with every time/antenna index assignment, 1 channel; "
              "all complex values" % (nm, ncorr))
    def f(b):
        fn = b.mod("africanus.rime.predict").predict_vis
        cs = CORRS[ncorr]
        combo = b.pick("combo", combos)
        ti = b.ints("t", (2,), 0, 1)
        b.assume(bool(ti.min() == 0))
        off = b.pick("off", [0, 3]) if b.tier != "quick" else 2
        ti = ti + off
        a1 = b.ints("p", (2,), 0, 1)
        a2 = b.ints("q", (2,), 0, 1)
        x = inputs(b, combo, 2, 2, 2, 2, 1, cs)
        ok = keepall(b, **x)
        r = fn(ti, a1, a2, **x)
        b.same("dtype", str(r.dtype), "complex128")
        b.eq("vis", r, ref(b, ti, a1, a2, x, 1, cs))
        ok()


for nc_ in (1, 2, 4):
    mk("dde", [c for c in COMBOS if c[0] and not c[2]], nc_)
    mk("dde_die", [c for c in COMBOS if c[0] and c[2]], nc_)
    mk("nodde", [c for c in COMBOS if not c[0]], nc_)


@scenario("R01", "many_channels", bounds="1..3 sources, 1..3 rows, 3 "
          "channels, 3 antennas, 2 times; every presence combination; fixed "
          "index pattern")
def wide(b):
    fn = b.mod("africanus.rime.predict").predict_vis
    n = b.pick("n", [1, 2, 4])
    cs = CORRS[n]
    combo = b.pick("combo", COMBOS)
    ns, nr = b.pick("sr", [(1, 3), (3, 1), (2, 3)])
    import numpy as np
    ti = np.array([0, 0, 1])[:nr]
    a1, a2 = np.array([0, 2, 1])[:nr], np.array([1, 0, 2])[:nr]
    x = inputs(b, combo, ns, 2, 3, nr, 3, cs)
    b.eq("vis", fn(ti, a1, a2, **x), ref(b, ti, a1, a2, x, 3, cs))


@scenario("R01", "apply_gains", bounds="2 rows, every antenna index "
          "assignment, 1/2/4 correlations")
def gains(b):
    m = b.mod("africanus.rime.predict")
    n = b.pick("n", [1, 2, 4])
    cs = CORRS[n]
    ti = b.ints("t", (2,), 0, 1)
    b.assume(bool(ti.min() == 0))
    a1, a2 = b.ints("p", (2,), 0, 1), b.ints("q", (2,), 0, 1)
    x = inputs(b, (False, False, True, True), 1, 2, 2, 2, 2, cs)
    ok = keepall(b, **x)
    r = m.apply_gains(ti, a1, a2, x["die1_jones"], x["base_vis"],
                      x["die2_jones"])
    b.eq("vis", r, ref(b, ti, a1, a2, x, 2, cs))
    ok()


@scenario("R01", "rejects", bounds="every one-sided antenna term and "
          "correlation rank mismatch")
def bad(b):
    fn = b.mod("africanus.rime.predict").predict_vis
    import numpy as np
    ti, a1, a2 = np.array([0]), np.array([0]), np.array([0])
    n = b.pick("n", [2, 4])
    cs, other = CORRS[n], CORRS[6 - n]
    x = inputs(b, (True, True, True, True), 1, 1, 1, 1, 1, cs)
    which = b.pick("which", ["dde1_jones", "dde2_jones", "die1_jones",
                             "die2_jones"])
    y = dict(x)
    y[which] = None
    b.raises("one-sided", ValueError, lambda: fn(ti, a1, a2, **y))
    shp = {"dde1_jones": (1, 1, 1, 1), "dde2_jones": (1, 1, 1, 1),
           "die1_jones": (1, 1, 1), "die2_jones": (1, 1, 1),
           "source_coh": (1, 1, 1), "base_vis": (1, 1)}
    w2 = b.pick("w2", sorted(shp))
    y = dict(x)
    y[w2] = b.cplxs("Y", shp[w2] + other)
    b.raises("rank mismatch", ValueError, lambda: fn(ti, a1, a2, **y))


# ----------------------------------------------------------------- dask
def chunked(b, x, cs, cr, ct, cc, na, corrs):
    C = tuple((c,) for c in corrs)
    dims = dict(dde1_jones=(cs, ct, (na,), cc) + C,
                dde2_jones=(cs, ct, (na,), cc) + C,
                source_coh=(cs, cr, cc) + C,
                die1_jones=(ct, (na,), cc) + C,
                die2_jones=(ct, (na,), cc) + C,
                base_vis=(cr, cc) + C)
    return {k: None if v is None else b.dask(v, dims[k], k)
            for k, v in x.items()}


def mkd(nm, combos, streams, tier="quick"):
    @scenario("R02", "dask_%s_%s" % (nm, streams),
              bounds="%s; streams=%s; 3 sources, 2..3 times with 1..2 rows "
              "each, 2 channels; every source and channel chunking, every "
              "time-aligned row chunking; 2 or 2x2 correlations"
              % (nm, streams), tier=tier)
    def f(b):
        import numpy as np
        fn = b.mod("africanus.rime.predict").predict_vis
        dfn = b.mod("africanus.rime.dask").predict_vis
        corrs = b.pick("corrs", [(2,), (2, 2)])
        combo = b.pick("combo", combos)
        quick = b.tier == "quick"
        rows = b.pick("rows", [(1, 2, 1)] if quick
                      else [(1, 2, 1), (2, 1)])
        nt = len(rows)
        ct = b.pick("ct", parts(nt))
        k, cr = 0, []
        for c in ct:
            cr.append(sum(rows[k:k + c]))
            k += c
        cr = tuple(cr)
        has_src = combo[0] or combo[1]
        ns = 3 if has_src else 1
        cs = b.pick("cs", [c for c in parts(ns) if c != (2, 1)] if quick
                    else parts(ns))
        cc = b.pick("cc", [(1, 1)] if quick and b.known_true(len(ct) > 1)
                    else [(2,), (1, 1)])
        nr = sum(rows)
        ti = np.repeat(np.arange(nt), rows)
        a1 = (np.arange(nr) * 3 + 1) % 2
        a2 = (np.arange(nr) + 1) % 3 % 2
        x = inputs(b, combo, ns, nt, 2, nr, 2, corrs)
        want = fn(ti, a1, a2, **x)
        d = chunked(b, x, cs, cr, ct, cc, 2, corrs)
        r = dfn(b.dask(ti, (cr,)), b.dask(a1, (cr,)), b.dask(a2, (cr,)),
                streams=streams, **d)
        b.same("chunks", r.chunks[:2], (cr, cc))
        b.same("shape", r.shape, want.shape)
        b.same("dtype", str(r.dtype), "complex128")
        b.eq("dask = numpy", b.compute(r), want)


for st in (True, False, None):
    mkd("dde", [c for c in COMBOS if c[0] and c[1]], st,
        "thorough" if st is None else "quick")
    mkd("dde_nocoh", [c for c in COMBOS if c[0] and not c[1]], st,
        "thorough" if st is None else "quick")
    mkd("coh", [c for c in COMBOS if not c[0] and c[1]], st,
        "thorough" if st is None else "quick")
mkd("base", [c for c in COMBOS if not c[0] and not c[1]], False)


@scenario("R02", "local_time_index", bounds="time index numbered per chunk "
          "or globally with any offset")
def local(b):
    import numpy as np
    fn = b.mod("africanus.rime.predict").predict_vis
    dfn = b.mod("africanus.rime.dask").predict_vis
    rows = (2, 1, 2)
    ct = b.pick("ct", parts(3))
    st = b.pick("st", [True, False])
    k, cr, loc = 0, [], []
    for c in ct:
        cr.append(sum(rows[k:k + c]))
        loc += list(np.repeat(np.arange(c), rows[k:k + c]))
        k += c
    cr = tuple(cr)
    ti = np.repeat(np.arange(3), rows)
    mode = b.pick("mode", ["local", "offset"])
    a1, a2 = np.array([0, 1, 0, 1, 1]), np.array([1, 1, 0, 0, 1])
    x = inputs(b, (True, True, True, True), 1, 3, 2, 5, 1, (2,))
    want = fn(ti, a1, a2, **x)
    t = np.array(loc) if mode == "local" else ti + 5
    d = chunked(b, x, (1,), cr, ct, (1,), 2, (2,))
    r = dfn(b.dask(t, (cr,)), b.dask(a1, (cr,)), b.dask(a2, (cr,)),
            streams=st, **d)
    b.eq("dask = numpy", b.compute(r), want)


@scenario("R02", "refuses_bad_chunks", bounds="antenna chunking and "
          "row/time chunk count mismatches for each antenna term")
def refuse(b):
    import numpy as np
    dfn = b.mod("africanus.rime.dask").predict_vis
    ti = np.array([0, 0, 1, 1])
    a1, a2 = np.array([0, 0, 1, 1]), np.array([1, 1, 0, 0])
    x = inputs(b, (True, True, True, True), 1, 2, 2, 4, 1, (1,))
    cr = (2, 2)
    d = chunked(b, x, (1,), cr, (1, 1), (1,), 2, (1,))
    which = b.pick("which", ["dde1_jones", "dde2_jones", "die1_jones",
                             "die2_jones"])
    how = b.pick("how", ["ant", "time", "bothtime"])
    tdim = 1 if which.startswith("dde") else 0
    names = [which]
    ch = list(d[which].chunks)
    if how == "ant":
        ch[tdim + 1] = (1, 1)
    else:
        ch[tdim] = (2,)
    if how == "bothtime":
        names = [which[:3] + "1_jones", which[:3] + "2_jones"]
    for n in names:
        d[n] = b.dask(x[n], tuple(ch), n)
    b.raises("bad chunking refused", ValueError, lambda: dfn(
        b.dask(ti, (cr,)), b.dask(a1, (cr,)), b.dask(a2, (cr,)), **d))
