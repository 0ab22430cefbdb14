"""A01 row and channel mapping; A02 averages; A03 dask averages."""
from fractions import Fraction

from engine.harness import scenario
from checks.common import parts, keepall

Q = Fraction
BLS = [(0, 1), (1, 0), (0, 2)]


def i32(b, v):
    return b.np.array(v, dtype=b.np.int32)


# ------------------------------------------------------------------ oracle
def greedy(rows, time, interval, secs):
    """bins (lists of rows) of one baseline's rows: samples are taken in
    order of time; a sample opens a bin unless it ends within `secs` of the
    start of the open one"""
    order = []
    for r in rows:                      # insertion sort
        k = len(order)
        while k > 0 and time[r] < time[order[k - 1]]:
            k -= 1
        order.insert(k, r)
    bins, low = [], None
    for r in order:
        h = interval[r] * Q(1, 2) if not isinstance(interval[r], float) \
            else interval[r] * 0.5
        if bins and not (time[r] + h - low > secs):
            bins[-1].append(r)
        else:
            bins.append([r])
            low = time[r] - h
    return bins


def all_bins(bls, time, interval, secs):
    out = []
    for u in sorted(set(bls)):
        out += greedy([r for r in range(len(bls)) if bls[r] == u],
                      time, interval, secs)
    return out


def total(xs):
    xs = list(xs)
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def claim_rows(b, ret, bins, time, interval, flags):
    n = len(bins)
    b.same("number of rows", (ret.time.shape, ret.interval.shape),
           ((n,), (n,)))
    outs = []
    for g in bins:
        o = {int(ret.map[r]) for r in g}
        b.same("one output row per bin", len(o), 1)
        o = o.pop()
        outs.append(o)
        b.eq("time", ret.time[o] * len(g), total(time[r] for r in g))
        b.eq("interval", ret.interval[o], total(interval[r] for r in g))
        if flags is not None:
            b.same("flagged iff all flagged", bool(ret.flag_row[o] != 0),
                   all(flags[r] for r in g))
    b.same("distinct rows", sorted(outs), list(range(n)))
    for k in range(n - 1):
        b.true("time order", ret.time[k] <= ret.time[k + 1])
    if flags is None:
        b.same("no flags", ret.flag_row is None, True)
    else:
        b.same("flag shape", ret.flag_row.shape, (n,))
    return outs


# --------------------------------------------------------------------- A01
def row_times(b, n, ties):
    t = [b.real("t%d" % r, 0, 20) for r in range(n)]
    if not ties:
        for i in range(n):
            for j in range(i):
                b.assume(t[i] != t[j])
    return t


def mk_rows(n, nbl, tier, flagged):
    @scenario("A01", "rows_%d_%dbl%s" % (n, nbl, "_flags" if flagged else ""),
              tier=tier, bounds="%d rows over up to %d baselines in any "
              "assignment%s; any times in [0, 20] without duplicate samples,"
              " intervals in (0, 4], bins of 1/10..10 seconds"
              % (n, nbl, ", any row flags" if flagged else ""))
    def s(b):
        M = b.mod("africanus.averaging.time_and_channel_mapping")
        # first occurrence order of baselines is immaterial: keep all
        pick = [b.int("bl%d" % r, 0, min(r, nbl - 1)) for r in range(n)]
        bls = [BLS[k] for k in pick]
        t = row_times(b, n, True)
        for i in range(n):
            for j in range(i):
                if bls[i] == bls[j]:
                    b.assume(t[i] != t[j])
        iv = [b.real("i%d" % r, Q(1, 100), 4) for r in range(n)]
        secs = b.real("secs", Q(1, 10), 10)
        time, interval = b.farr(t), b.farr(iv)
        a1, a2 = i32(b, [x[0] for x in bls]), i32(b, [x[1] for x in bls])
        fl = None
        kw = {}
        if flagged:
            fl = [b.bool("f%d" % r) for r in range(n)]
            kw["flag_row"] = b.np.array([1 if f else 0 for f in fl],
                                        dtype=b.np.uint8)
        keep = keepall(b, time=time, interval=interval)
        ret = M.row_mapper(time, interval, a1, a2, time_bin_secs=secs, **kw)
        claim_rows(b, ret, all_bins(bls, time, interval, secs),
                   time, interval, fl)
        keep()


mk_rows(2, 2, "quick", True)
mk_rows(3, 1, "quick", False)
mk_rows(3, 3, "quick", False)
mk_rows(4, 1, "quick", False)
mk_rows(3, 2, "thorough", True)
mk_rows(4, 2, "thorough", False)
mk_rows(5, 1, "thorough", False)


@scenario("A01", "flags", bounds="4 equally spaced rows of 1 or 2 baselines, "
          "bins of 1..4 samples, row flags in {0, 1, 2}")
def s_flags(b):
    M = b.mod("africanus.averaging.time_and_channel_mapping")
    nbl = b.int("nbl", 1, 2)
    k = b.int("k", 1, 4)
    bls = [BLS[r % nbl] for r in range(4)]
    time = b.farr([Q(r // nbl) for r in range(4)])
    interval = b.farr([Q(1)] * 4)
    f = [b.int("f%d" % r, 0, 2) for r in range(4)]
    ret = M.row_mapper(time, interval, i32(b, [x[0] for x in bls]),
                       i32(b, [x[1] for x in bls]),
                       flag_row=b.np.array(f, dtype=b.np.uint8),
                       time_bin_secs=k)
    claim_rows(b, ret, all_bins(bls, time, interval, k), time, interval,
               [x != 0 for x in f])


@scenario("A01", "duplicates", bounds="3 rows, one (time, baseline) pair "
          "twice at any positions")
def s_dup(b):
    M = b.mod("africanus.averaging.time_and_channel_mapping")
    i, j = b.pick("ij", [(0, 1), (0, 2), (1, 2)])
    other = b.pick("o", BLS)
    t, u = b.real("t", 0, 9), b.real("u", 0, 9)
    bls = [other] * 3
    time = [u] * 3
    for r in (i, j):
        bls[r], time[r] = (0, 1), t
    b.raises("duplicate sample", ValueError, lambda: M.row_mapper(
        b.farr(time), b.farr([Q(1)] * 3), i32(b, [x[0] for x in bls]),
        i32(b, [x[1] for x in bls])))


@scenario("A01", "unique", bounds="0..4 times of any value; up to 4 rows "
          "with antennas 0..2")
def s_uniq(b):
    M = b.mod("africanus.averaging.support")
    n = b.int("n", 0, 4)
    if b.bool("times"):
        t = b.reals("t", (n,), -5, 5)
        u, idx, inv, cnt = M.unique_time(t)
        key = [t[i] for i in range(n)]
        for i in range(len(u) - 1):
            b.true("increasing", u[i] < u[i + 1])
    else:
        k = [b.pick("k%d" % r, [(0, 1), (1, 0), (2, 2)]) for r in range(n)]
        a1, a2 = i32(b, [x[0] for x in k]), i32(b, [x[1] for x in k])
        u, idx, inv, cnt = M.unique_baselines(a1, a2)
        b.same("pairs", u.shape[1:], (2,))
        key = k
        b.same("no duplicates", len({(int(x[0]), int(x[1])) for x in u}),
               len(u))
        u = [(int(x[0]), int(x[1])) for x in u]
    b.same("sizes", (len(idx), len(inv), len(cnt), int(sum(cnt))),
           (len(u), n, len(u), n))
    cnt2 = [0] * len(u)
    for r in range(n):
        j = int(inv[r])
        cnt2[j] += 1
        if isinstance(key[r], tuple):
            b.same("inverse", u[j], key[r])
        else:
            b.eq("inverse", u[j], key[r])
        b.same("index of the first", int(idx[j]) <= r and
               int(inv[int(idx[j])]) == j, True)
    b.same("counts", [int(c) for c in cnt], cnt2)


@scenario("A01", "channels", bounds="0..7 channels in bins of 1..8")
def s_chan(b):
    M = b.mod("africanus.averaging.time_and_channel_mapping")
    n, k = b.int("n", 0, 7), b.int("k", 1, 8)
    m, o = M.channel_mapper(n, k)
    b.same("bins", (len(m), int(o)), (n, -(-n // k)))
    b.same("map", [int(x) for x in m], [c // k for c in range(n)])


# --------------------------------------------------------------------- A02
def layout(b):
    """4 rows in a chosen bin structure; returns columns and bins"""
    nm, bls, t, secs = b.pick("layout", [
        ("one bin", [0, 0, 0, 0], [0, 1, 2, 3], 4),
        ("pairs", [0, 0, 0, 0], [3, 1, 0, 2], 2),
        ("two baselines", [0, 1, 0, 1], [0, 0, 1, 1], 2),
        ("singles", [0, 1, 0, 2], [0, 0, 1, 1], 1)])
    bls = [BLS[k] for k in bls]
    time, interval = b.farr([Q(x) for x in t]), b.farr([Q(1)] * 4)
    return bls, time, interval, secs, all_bins(bls, time, interval, secs)


def call(b, M, bls, time, interval, secs, **kw):
    return M.time_and_channel(time, interval, i32(b, [x[0] for x in bls]),
                              i32(b, [x[1] for x in bls]),
                              time_bin_secs=float(secs), **kw)


def out_row(ret, g, bls, bins, time):
    """the output row of a bin, from its mean time and baseline"""
    mean = total(time[r] for r in g) / len(g)
    for o in range(ret.time.shape[0]):
        if ret.time[o] == mean and int(ret.antenna1[o]) == bls[g[0]][0] \
                and int(ret.antenna2[o]) == bls[g[0]][1]:
            return o
    return None


def use(g, flags):
    """the samples of a bin that count: the unflagged ones if any"""
    ok = [r for r in g if not flags[r]]
    return ok or list(g)


def claim_sigma(b, lab, got, s2, w):
    """got = sqrt(s2)/w"""
    if w == 0:
        return
    b.true(lab + " positive", got >= 0)
    b.eq(lab, got * got * w * w, s2)


@scenario("A02", "row_columns", bounds="4 rows in 4 bin layouts, 2 "
          "correlations, row flags in {0, 1, 2} (or none), with or without "
          "weights; any column values", fork_timeout_ms=300)
def s_row(b):
    M = b.mod("africanus.averaging.time_and_channel_avg")
    bls, time, interval, secs, bins = layout(b)
    mode = b.pick("mode", ["none", "flags", "two"])
    kw = {}
    fl = [False] * 4
    if mode != "none":
        fl = [b.bool("f%d" % r) for r in range(4)]
        kw["flag_row"] = b.np.array(
            [(2 if mode == "two" else 1) if f else 0 for f in fl],
            dtype=b.np.uint8)
    have_w = b.bool("have_w")
    uvw, tc = b.reals("uvw", (4, 3)), b.reals("tc", (4,))
    ex, sg = b.reals("ex", (4,)), b.reals("sg", (4, 2), 0, 5)
    kw.update(uvw=uvw, time_centroid=tc, exposure=ex, sigma=sg)
    if have_w:
        kw["weight"] = wt = b.reals("wt", (4, 2), Q(1, 10), 5)
    keep = keepall(b, uvw=uvw, tc=tc, ex=ex, sg=sg, time=time)
    ret = call(b, M, bls, time, interval, secs, **kw)
    b.same("rows", ret.time.shape, (len(bins),))
    b.same("absent", [ret.chan_freq, ret.chan_width, ret.effective_bw,
                      ret.resolution, ret.vis, ret.flag, ret.weight_spectrum,
                      ret.sigma_spectrum], [None] * 8)
    b.same("weight presence", ret.weight is not None, bool(have_w))
    b.same("shapes", (ret.uvw.shape, ret.time_centroid.shape,
                      ret.exposure.shape, ret.sigma.shape),
           ((len(bins), 3), (len(bins),), (len(bins),), (len(bins), 2)))
    for g in bins:
        o = out_row(ret, g, bls, bins, time)
        b.same("row of bin found", o is not None, True)
        b.eq("interval", ret.interval[o], b.q(len(g)))
        if mode != "none":
            b.same("flag", bool(ret.flag_row[o] != 0),
                   all(fl[r] for r in g))
        else:
            b.same("no flag", ret.flag_row is None, True)
        u = use(g, fl)
        for c in range(3):
            b.eq("uvw", ret.uvw[o, c] * len(u), total(uvw[r, c] for r in u))
        b.eq("centroid", ret.time_centroid[o] * len(u),
             total(tc[r] for r in u))
        b.eq("exposure", ret.exposure[o], total(ex[r] for r in u))
        for c in range(2):
            if have_w:
                w = total(wt[r, c] for r in u)
                b.eq("weight", ret.weight[o, c], w)
                s2 = total((sg[r, c] * wt[r, c]) ** 2 for r in u)
            else:
                w = b.q(len(u))
                s2 = total(sg[r, c] ** 2 for r in u)
            b.true("sigma sign", ret.sigma[o, c] >= 0)
            b.eq("sigma", ret.sigma[o, c] ** 2 * w * w, s2)
    keep()


@scenario("A02", "channel_columns", bounds="1..5 channels in bins of 1..3; "
          "every column present or absent; any values")
def s_chancol(b):
    M = b.mod("africanus.averaging.time_and_channel_avg")
    n, k = b.int("n", 1, 5), b.int("k", 1, 3)
    have = {c: b.bool("h" + c) for c in ("chan_freq", "chan_width",
                                         "effective_bw", "resolution")}
    kw = {c: b.reals(c, (n,)) for c, h in have.items() if h}
    ret = call(b, M, [(0, 1)], b.farr([1]), b.farr([1]), 1,
               chan_bin_size=k, **kw)
    nb = -(-n // k)
    for c in have:
        r = getattr(ret, c)
        if c not in kw:
            b.same("absent " + c, r is None, True)
            continue
        b.same("shape " + c, r.shape, (nb,))
        for o in range(nb):
            m = [kw[c][i] for i in range(o * k, min(n, o * k + k))]
            v = total(m)
            b.eq(c, r[o] * len(m) if c == "chan_freq" else r[o], v)


def mk_vis(name, weights, flags, nc, k, ncorr, tier="quick", sig=True):
    @scenario("A02", name, tier=tier, fork_timeout_ms=300,
              bounds="4 rows in 4 bin layouts, %d channels in bins of %d, %d "
              "correlation(s), %s weights, flags: %s; any values"
              % (nc, k, ncorr, weights, flags))
    def s(b):
        M = b.mod("africanus.averaging.time_and_channel_avg")
        bls, time, interval, secs, bins = layout(b)
        sh = (4, nc, ncorr)
        vis = b.cplxs("v", sh)
        kw = dict(vis=vis)
        if sig:
            kw["sigma_spectrum"] = sg = b.reals("s", sh, 0, 5)
        if "row" in weights:
            kw["weight"] = wt = b.reals("w", (4, ncorr), Q(1, 10), 5)
        if "spectrum" in weights:
            kw["weight_spectrum"] = ws = b.reals("ws", sh, Q(1, 10), 5)

        def w(r, c, p):
            if "spectrum" in weights:
                return ws[r, c, p]
            return wt[r, p] if "row" in weights else b.q(1)
        F = {(r, c, p): False for r in range(4) for c in range(nc)
             for p in range(ncorr)}
        if flags == "row":
            for r in range(4):
                f = b.bool("f%d" % r)
                for c in range(nc):
                    for p in range(ncorr):
                        F[r, c, p] = f
            kw["flag_row"] = b.np.array([int(F[r, 0, 0]) for r in range(4)],
                                        dtype=b.np.uint8)
        elif flags == "samples":
            for i in F:
                # 2 rows vary freely, the others follow a fixed pattern
                F[i] = b.bool("f%d_%d_%d" % i) if i[0] < 3 else i[1] == 0
            kw["flag"] = b.np.array(
                [[[int(F[r, c, p]) for p in range(ncorr)] for c in range(nc)]
                 for r in range(4)], dtype=b.np.uint8)
        rowfl = [all(F[r, c, p] for c in range(nc) for p in range(ncorr))
                 for r in range(4)]
        keep = keepall(b, vis=vis)
        ret = call(b, M, bls, time, interval, secs, chan_bin_size=k, **kw)
        nb = -(-nc // k)
        osh = (len(bins), nb, ncorr)
        b.same("shapes", ret.vis.shape, osh)
        b.same("presence", [x is None for x in (
            ret.flag, ret.weight_spectrum, ret.sigma_spectrum, ret.weight,
            ret.flag_row)],
            ["flag" not in kw, "weight_spectrum" not in kw, not sig,
             "weight" not in kw, flags == "none"])
        for g in bins:
            o = out_row(ret, g, bls, bins, time)
            b.same("row of bin found", o is not None, True)
            if flags != "none":
                b.same("flag row", bool(ret.flag_row[o] != 0),
                       all(rowfl[r] for r in g))
            rows = use(g, rowfl)
            for q in range(nb):
                for p in range(ncorr):
                    cells = [(r, c, p) for r in rows
                             for c in range(q * k, min(nc, q * k + k))]
                    ok = [i for i in cells if not F[i]]
                    if "flag" in kw:
                        b.same("flag", bool(ret.flag[o, q, p] != 0), not ok)
                    m = ok or cells
                    W = total(w(*i) for i in m)
                    b.eq("vis", ret.vis[o, q, p] * W,
                         total(vis[i] * w(*i) for i in m))
                    if "weight_spectrum" in kw:
                        b.eq("weight", ret.weight_spectrum[o, q, p], W)
                    if sig:
                        x = ret.sigma_spectrum[o, q, p]
                        b.true("sigma sign", x >= 0)
                        b.eq("sigma", x * x * W * W,
                             total((sg[i] * w(*i)) ** 2 for i in m))
        keep()


mk_vis("vis_spectrum", "spectrum", "samples", 2, 2, 1)
mk_vis("vis_both", "row and spectrum", "row", 2, 2, 1)
mk_vis("vis_row", "row", "samples", 2, 1, 1)
mk_vis("vis_natural", "natural", "row", 3, 2, 2)
mk_vis("vis_plain", "natural", "none", 3, 2, 2)
mk_vis("vis_spectrum_3", "spectrum", "samples", 3, 2, 1, tier="thorough",
       sig=False)


@scenario("A02", "zero_weights", bounds="2 rows and channels, any "
          "non-negative weights")
def s_zero(b):
    M = b.mod("africanus.averaging.time_and_channel_avg")
    sh = (2, 2, 1)
    vis, ws = b.cplxs("v", sh), b.reals("ws", sh, 0, 5)
    f = b.bool("f")
    ret = call(b, M, [(0, 1)] * 2, b.farr([0, 1]), b.farr([1, 1]), 2,
               vis=vis, weight_spectrum=ws, chan_bin_size=2,
               flag=b.np.full(sh, int(f), dtype=b.np.uint8))
    W = total(ws.ravel())
    b.eq("weight", ret.weight_spectrum[0, 0, 0], W)
    b.eq("vis", ret.vis[0, 0, 0] * W,
         total(vis.ravel()[i] * ws.ravel()[i] for i in range(4)))


@scenario("A02", "flag_agreement", bounds="2 rows, 2 channels, 2 "
          "correlations: any flags (values 0 and 2) and row flags")
def s_merge(b):
    M = b.mod("africanus.averaging.time_and_channel_avg")
    f = b.bools("f", (2, 2, 1), dtype="uint8") * 2
    fr = b.bools("fr", (2,), dtype="uint8")
    want = [bool((f[r] != 0).all()) for r in range(2)]
    r = M.merge_flags(None, f)
    b.same("derived", [bool(x != 0) for x in r], want)
    b.same("row only", [bool(x) for x in M.merge_flags(fr, None)],
           [bool(x) for x in fr])
    b.same("none", M.merge_flags(None, None), None)
    if want == [bool(x) for x in fr]:
        b.same("agree", [bool(x) for x in M.merge_flags(fr, f)], want)
    else:
        b.raises("mismatch", ValueError, lambda: M.merge_flags(fr, f))


@scenario("A02", "dimensions", bounds="pairs of columns with 1..2 channels "
          "and correlations that do or do not agree")
def s_dims(b):
    M = b.mod("africanus.averaging.time_and_channel_avg")
    cols = ["vis", "flag", "weight_spectrum", "sigma_spectrum", "chan_freq",
            "chan_width", "effective_bw", "resolution"]
    i = b.int("i", 0, 6)
    j = b.int("j", i + 1, 7)
    n1, n2 = b.int("n1", 1, 2), b.int("n2", 1, 2)
    p1, p2 = b.int("p1", 1, 2), b.int("p2", 1, 2)

    def col(x, n, p):
        if x.startswith(("chan", "eff", "res")):
            return b.farr([1] * n)
        if x == "flag":
            return b.np.zeros((1, n, p), dtype=b.np.uint8)
        return b.farr([[[1] * p] * n],
                      "complex128" if x == "vis" else "float64")
    kw = {cols[i]: col(cols[i], n1, p1), cols[j]: col(cols[j], n2, p2)}

    def go():
        return call(b, M, [(0, 1)], b.farr([1]), b.farr([1]), 1, **kw)
    if n1 == n2 and (p1 == p2 or j > 3):
        r = go()
        b.same("shape", [getattr(r, c).shape[-1 if c in cols[4:] else 1]
                         for c in (cols[i], cols[j])], [n1, n2])
    else:
        b.raises("inconsistent", ValueError, go)


# --------------------------------------------------------------------- A03
FIELDS = ["time", "interval", "flag_row", "antenna1", "antenna2",
          "time_centroid", "exposure", "uvw", "weight", "sigma", "chan_freq",
          "chan_width", "effective_bw", "resolution", "vis", "flag",
          "weight_spectrum", "sigma_spectrum"]
ROWF = FIELDS[:10]
CHANF = FIELDS[10:14]


def mk_dask(name, cols, ncorr, tier="quick"):
    @scenario("A03", name, tier=tier, fork_timeout_ms=300,
              bounds="3 rows, 3 channels, %d correlation(s) in every "
              "chunking, channel bins of 1..2; columns %s; any values"
              % (ncorr, ", ".join(cols)))
    def s(b):
        np = b.np
        M = b.mod("africanus.averaging.time_and_channel_avg")
        D = b.mod("africanus.averaging.dask")
        rs, cs = b.pick("rs", parts(3)), b.pick("cs", parts(3))
        ps = b.pick("ps", parts(ncorr))
        k = b.int("k", 1, 2)
        secs = b.pick("secs", [1, 2])
        n = 3
        x = dict(time=b.farr([0, 1, 2]), interval=b.farr([1] * 3),
                 antenna1=i32(b, [0] * 3), antenna2=i32(b, [1] * 3))
        rc, rcp, r3 = (n, ncorr), (n, 3, ncorr), (n, 3)
        shapes = dict(time_centroid=(n,), exposure=(n,), uvw=r3, weight=rc,
                      sigma=rc, chan_freq=(3,), chan_width=(3,),
                      effective_bw=(3,), resolution=(3,), vis=rcp,
                      weight_spectrum=rcp, sigma_spectrum=rcp)
        dims = dict(uvw=(rs, (3,)), weight=(rs, ps), sigma=(rs, ps),
                    vis=(rs, cs, ps), flag=(rs, cs, ps),
                    weight_spectrum=(rs, cs, ps),
                    sigma_spectrum=(rs, cs, ps))
        for c in CHANF:
            dims[c] = (cs,)
        for c in cols:
            if c == "vis":
                x[c] = b.cplxs(c, rcp)
            elif c == "flag":
                f = b.pick("f", [(0, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1)])
                x[c] = np.array([[[f[(r + q + p) % 3] if r else f[0]
                                   for p in range(ncorr)] for q in range(3)]
                                 for r in range(n)], dtype=np.uint8)
            elif c == "flag_row":
                if "flag" in cols:
                    x[c] = np.array([int((x["flag"][r] != 0).all())
                                     for r in range(n)], dtype=np.uint8)
                else:
                    x[c] = b.bools(c, (n,), dtype="uint8")
            elif "igma" in c:
                x[c] = b.reals(c, shapes[c], 0, 3)
            else:
                x[c] = b.reals(c, shapes[c], 1, 3)
        dx = {c: b.dask(v, dims.get(c, (rs,))) for c, v in x.items()}
        got = D.time_and_channel(time_bin_secs=float(secs), chan_bin_size=k,
                                 **dx)
        # flags of all channels and correlations decide the row flags
        if "flag" in cols and "flag_row" not in cols:
            x["flag_row"] = M.merge_flags(None, x["flag"])
        fields = set(cols) | set(FIELDS[:5])
        if "flag_row" not in x:
            fields.discard("flag_row")
        for c in FIELDS:
            b.same("presence " + c, getattr(got, c) is not None,
                   c in fields or (c == "flag_row" and "flag_row" in x))
        rb = [0]
        for m in rs:
            rb.append(rb[-1] + m)
        cb = [0]
        for m in cs:
            cb.append(cb[-1] + m)

        def ref(i, j):
            """the direct average of one chunk"""
            sr = slice(rb[i], rb[i + 1])
            sc = slice(cb[j], cb[j + 1])
            y = {}
            for c, v in x.items():
                y[c] = v[sc] if c in CHANF else (
                    v[sr, sc] if v.ndim == 3 else v[sr])
            fr = y.pop("flag_row", None)
            # the row flags were decided over all channels
            meta = M.row_mapper(y["time"], y["interval"], y["antenna1"],
                                y["antenna2"], flag_row=fr,
                                time_bin_secs=float(secs))
            cm = M.channel_mapper(cb[j + 1] - cb[j], k)
            ra = M.row_average(meta, y["antenna1"], y["antenna2"], fr,
                               *[y.get(c) for c in FIELDS[5:10]])
            ca = M.chan_average(cm, *[y.get(c) for c in CHANF])
            va = M.row_chan_average(meta, cm, fr, y.get("weight"),
                                    *[y.get(c) for c in FIELDS[14:]]) \
                if any(c in y for c in FIELDS[14:]) else None
            return meta, ra, ca, va
        refs = {(i, j): ref(i, j) for i in range(len(rs))
                for j in range(len(cs))}
        for c in FIELDS:
            g = getattr(got, c)
            if g is None:
                continue
            b.same("dtype " + c, str(g.dtype), str(x[c].dtype))
            if c in CHANF:
                want = [getattr(refs[0, j][2], c) for j in range(len(cs))]
                want = np.concatenate(want)
                b.same("chunks " + c, g.chunks, (tuple(
                    -(-m // k) for m in cs),))
            elif c in ROWF:
                src = 0 if c in ("time", "interval", "flag_row") else 1
                want = np.concatenate([getattr(refs[i, 0][src], c)
                                       for i in range(len(rs))])
            else:
                want = np.concatenate([np.concatenate(
                    [getattr(refs[i, j][3], c) for j in range(len(cs))],
                    axis=1) for i in range(len(rs))])
                b.same("chunks " + c, g.chunks[1:], (tuple(
                    -(-m // k) for m in cs), ps))
            r = b.compute(g)
            b.same("shape " + c, r.shape, want.shape)
            b.eq(c, r, want)


mk_dask("row_only", ["flag_row", "time_centroid", "exposure", "uvw"], 1)
mk_dask("row_corr", ["weight", "sigma"], 2)
mk_dask("channels", ["chan_freq", "chan_width", "effective_bw",
                     "resolution"], 1)
mk_dask("vis_flag", ["vis", "flag"], 2)
mk_dask("vis_weighted", ["vis", "weight", "weight_spectrum", "flag",
                         "flag_row"], 1)
mk_dask("spectra", ["sigma_spectrum", "weight", "chan_freq"], 1)
mk_dask("vis_2corr", ["vis", "weight_spectrum", "sigma_spectrum", "weight",
                      "flag"], 2, tier="thorough")
