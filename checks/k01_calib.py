"""K01 gains applied to visibilities; K02 phase-only calibration; K03 dask
versions of both."""
from fractions import Fraction
import itertools

from engine.harness import scenario
from checks.common import parts, keepall, mm, mH
from checks.r03_phase import phase, C_LIGHT

Q = Fraction
MODES = {"scalar": ((1,), (1,)), "diagonal vis": ((2,), (2,)),
         "diagonal": ((2,), (2, 2)), "full": ((2, 2), (2, 2))}


def i32(b, v):
    return b.np.array(v, dtype=b.np.int32)


def bins(b, counts, start=0):
    idx = [start]
    for c in counts[:-1]:
        idx.append(idx[-1] + c)
    return i32(b, idx), i32(b, counts)


def rows_of(counts):
    return [t for t, c in enumerate(counts) for _ in range(c)]


def jm(g):
    """a gain as a 2x2 matrix (or a vector of scalars)"""
    if len(g.shape) == 2:
        return [[g[0, 0], g[0, 1]], [g[1, 0], g[1, 1]]]
    return [[g[0], 0], [0, g[1]]]


def apply(gp, m, gq):
    """gp m gq^H for all modes"""
    if len(m.shape) == 1:
        return [gp[c] * m[c] * gq[c].conjugate() for c in range(m.shape[0])]
    return mm(jm(gp), mm([[m[0, 0], m[0, 1]], [m[1, 0], m[1, 1]]],
                         mH2(jm(gq))))


def mH2(a):
    def cj(x):
        return x if isinstance(x, int) else x.conjugate()
    return [[cj(a[j][i]) for j in range(2)] for i in range(2)]


def plus(a, c, sign=1):
    if isinstance(a[0], list):
        return [[x + sign * y for x, y in zip(p, q)] for p, q in zip(a, c)]
    return [x + sign * y for x, y in zip(a, c)]


def nested(v):
    if len(v.shape) == 1:
        return [v[c] for c in range(v.shape[0])]
    return [[v[0, 0], v[0, 1]], [v[1, 0], v[1, 1]]]


def setup(b, mode, counts, na, nc, nd, ants=None, start=None):
    js, vs = MODES[mode]
    nt, nr = len(counts), sum(counts)
    if ants is None:
        a1 = [b.int("p%d" % r, 0, na - 1) for r in range(nr)]
        a2 = [b.int("q%d" % r, 0, na - 1) for r in range(nr)]
    else:
        a1, a2 = ants
    idx, cnt = bins(b, counts, 0 if start is None else start)
    jones = b.cplxs("J", (nt, na, nc, nd) + js)
    return idx, cnt, i32(b, a1), i32(b, a2), a1, a2, jones, js, vs


COUNTS = [(2,), (1, 1), (2, 1), (1, 2)]
# with the index of the first row
STARTS = [((2,), 0), ((1, 1), 5), ((2, 1), 0), ((1, 2), 3)]


def mk(mode):
    nm = mode.replace(" ", "_")

    @scenario("K01", "corrupt_" + nm, bounds="%s gains: 1..2 times with 1..2 "
              "rows each, 2 antennas in any pairs, 1..2 channels, 1..2 "
              "directions, bin indices starting anywhere; any values" % mode)
    def s_corrupt(b):
        f = b.mod("africanus.calibration.utils.corrupt_vis").corrupt_vis
        counts, start = b.pick("counts", STARTS)
        nc, nd = b.pick("dims", [(2, 1), (1, 2)])
        ants = ([b.int("p%d" % r, 0, 1) if r < 2 else 1
                 for r in range(sum(counts))],
                [b.int("q%d" % r, 0, 1) if r < 2 else 0
                 for r in range(sum(counts))])
        idx, cnt, A1, A2, a1, a2, J, js, vs = setup(
            b, mode, counts, 2, nc, nd, ants, start)
        M = b.cplxs("M", (sum(counts), nc, nd) + vs)
        keep = keepall(b, indices=idx, counts=cnt, jones=J, model=M)
        r = f(idx, cnt, A1, A2, J, M)
        b.same("shape", r.shape, (sum(counts), nc) + vs)
        b.same("dtype", str(r.dtype), "complex128")
        tm = rows_of(counts)
        for row, nu in itertools.product(range(sum(counts)), range(nc)):
            t, p, q = tm[row], a1[row], a2[row]
            w = apply(J[t, p, nu, 0], M[row, nu, 0], J[t, q, nu, 0])
            for s in range(1, nd):
                w = plus(w, apply(J[t, p, nu, s], M[row, nu, s],
                                  J[t, q, nu, s]))
            b.eq("vis", r[row, nu], b.farr(w, "complex128"))
        keep()

    @scenario("K01", "residual_" + nm, bounds="%s gains: 1..2 times with "
              "1..2 rows each, 2 antennas, 2 channels, 1..2 directions, one "
              "cell with any flags; any values" % mode)
    def s_res(b):
        np = b.np
        f = b.mod("africanus.calibration.utils.residual_vis").residual_vis
        counts, start = b.pick("counts", STARTS[1:])
        nr = sum(counts)
        nc, nd = 2, b.int("nd", 1, 2)
        ants = ([r % 2 for r in range(nr)], [1 - r % 2 for r in range(nr)])
        idx, cnt, A1, A2, a1, a2, J, js, vs = setup(
            b, mode, counts, 2, nc, nd, ants, start)
        V = b.cplxs("V", (nr, nc) + vs)
        M = b.cplxs("M", (nr, nc, nd) + vs)
        F = np.zeros((nr, nc) + vs, dtype=bool)
        fr, fc = b.int("fr", 0, nr - 1), b.int("fc", 0, nc - 1)
        which = b.pick("which", [None] + list(itertools.product(
            *[range(n) for n in vs])))
        if which is not None:
            F[(fr, fc) + which] = True
        keep = keepall(b, indices=idx, jones=J, vis=V, model=M)
        r = f(idx, cnt, A1, A2, J, V, F, M)
        b.same("shape", r.shape, V.shape)
        b.same("dtype", str(r.dtype), "complex128")
        tm = rows_of(counts)
        for row, nu in itertools.product(range(nr), range(nc)):
            t, p, q = tm[row], a1[row], a2[row]
            if bool(F[row, nu].any()):
                w = np.zeros(vs, dtype="complex128")
            else:
                w = nested(V[row, nu])
                for s in range(nd):
                    w = plus(w, apply(J[t, p, nu, s], M[row, nu, s],
                                      J[t, q, nu, s]), -1)
                w = b.farr(w, "complex128")
            b.eq("residual", r[row, nu], w)
        keep()

    @scenario("K01", "correct_" + nm, bounds="%s gains (any with a non-zero "
              "determinant): 1..2 times with 1..2 rows each, 2 antennas, 1..2 "
              "channels, one cell flagged or not; any values" % mode,
              fork_timeout_ms=500)
    def s_cor(b):
        np = b.np
        f = b.mod("africanus.calibration.utils.correct_vis").correct_vis
        counts, start = b.pick("counts", STARTS)
        nr = sum(counts)
        nc = b.int("nc", 1, 2)
        ants = ([r % 2 for r in range(nr)], [1 - r % 2 for r in range(nr)])
        js, vs = MODES[mode]
        # one gain is arbitrary, the others are chosen
        nt = len(counts)
        J = np.zeros((nt, 2, nc, 1) + js, dtype="complex128")
        for t, a, c in itertools.product(range(nt), range(2), range(nc)):
            for k, ix in enumerate(itertools.product(*[range(n)
                                                       for n in js])):
                J[(t, a, c, 0) + ix] = b.farr(
                    [4 + t + a + 2 * c if k in (0, 3) else 1],
                    "complex128")[0] * (1, 1j, -1, -1j)[(a + k) % 4]
        gt, ga = b.int("gt", 0, nt - 1), b.int("ga", 0, 1)
        g = b.cplxs("g", js)
        det = [g[c] for c in range(js[0])] if len(js) == 1 else [
            g[0, 0] * g[1, 1] - g[0, 1] * g[1, 0]]
        for d in det:
            b.assume(d.real * d.real + d.imag * d.imag > 0)
        J[gt, ga, 0, 0] = g
        idx, cnt = bins(b, counts, start)
        V = b.cplxs("V", (nr, nc) + vs)
        F = np.zeros((nr, nc) + vs, dtype=bool)
        fr, fc = b.int("fr", 0, nr - 1), nc - 1
        on = b.bool("on")
        F[(fr, fc) + tuple(n - 1 for n in vs)] = on
        keep = keepall(b, indices=idx, jones=J, vis=V)
        r = f(idx, cnt, i32(b, ants[0]), i32(b, ants[1]), J, V, F)
        b.same("shape", r.shape, V.shape)
        b.same("dtype", str(r.dtype), "complex128")
        tm = rows_of(counts)
        for row, nu in itertools.product(range(nr), range(nc)):
            t, p, q = tm[row], ants[0][row], ants[1][row]
            if on and (row, nu) == (fr, fc):
                b.eq("flagged", r[row, nu], np.zeros(vs, dtype="complex128"))
            else:
                b.eq("gains times corrected", b.farr(
                    apply(J[t, p, nu, 0], r[row, nu], J[t, q, nu, 0]),
                    "complex128"), V[row, nu])
        keep()

    @scenario("K01", "compute_" + nm, bounds="%s gains: 1..2 times with 1..2 "
              "rows each, 2 antennas, 1..2 channels, 1..2 directions that "
              "change with time (rational n), complex or real model; any "
              "gains, models, uvw and frequencies" % mode)
    def s_cmp(b):
        f = b.mod("africanus.calibration.utils.compute_and_corrupt_vis"
                  ).compute_and_corrupt_vis
        counts, start = b.pick("counts", STARTS)
        nr, nt = sum(counts), len(counts)
        nc, nd = b.pick("dims", [(1, 1), (2, 1), (1, 2)])
        ants = ([r % 2 for r in range(nr)], [1 - r % 2 for r in range(nr)])
        idx, cnt, A1, A2, a1, a2, J, js, vs = setup(
            b, mode, counts, 2, nc, nd, ants, start)
        M = b.reals("M", (nt, nc, nd) + vs) if b.bool("real") else \
            b.cplxs("M", (nt, nc, nd) + vs)
        LM = [(Q(1, 3), Q(2, 3), Q(2, 3)), (Q(-2, 7), Q(3, 7), Q(6, 7)),
              (Q(4, 9), Q(-4, 9), Q(7, 9)), (Q(0), Q(3, 5), Q(4, 5))]
        lm = b.farr([[LM[(t * nd + s) % 4][:2] for s in range(nd)]
                     for t in range(nt)])
        uvw = b.reals("uvw", (nr, 3))
        freq = b.reals("nu", (nc,)) * C_LIGHT
        keep = keepall(b, indices=idx, jones=J, model=M, uvw=uvw, freq=freq)
        r = f(idx, cnt, A1, A2, J, M, uvw, freq, lm)
        b.same("shape", r.shape, (nr, nc) + vs)
        b.same("dtype", str(r.dtype), "complex128")
        tm = rows_of(counts)
        for row, nu in itertools.product(range(nr), range(nc)):
            t, p, q = tm[row], a1[row], a2[row]
            w = None
            for s in range(nd):
                re, im = phase(b, lm[t, s], uvw[row], freq[nu], -1)
                n = LM[(t * nd + s) % 4][2]
                k = (re + im * 1j) * b.q(n.denominator, n.numerator)
                x = apply(J[t, p, nu, s], M[t, nu, s] * k, J[t, q, nu, s])
                w = x if w is None else plus(w, x)
            b.eq("vis", r[row, nu], b.farr(w, "complex128"))
        keep()


for _m in MODES:
    mk(_m)


@scenario("K01", "refusals", bounds="gains and visibilities with every "
          "number of axes from 3 to 7; several directions in correct_vis")
def s_ref(b):
    np = b.np
    U = b.mod("africanus.calibration.utils.utils")
    nj, nv = b.int("nj", 3, 7), b.int("nv", 2, 6)
    vt = b.pick("type", ["vis", "model"])
    J = np.ones((1,) * nj, dtype="complex128")
    V = np.ones((1,) * nv, dtype="complex128")
    base = 3 if vt == "vis" else 4
    ok = {(5, base): U.DIAG_DIAG, (5, base + 1): U.DIAG,
          (6, base + 1): U.FULL}
    if (nj, nv) in ok:
        b.same("mode", U.check_type(J, V, vis_type=vt), ok[nj, nv])
    else:
        b.raises("shapes", RuntimeError,
                 lambda: U.check_type(J, V, vis_type=vt))
    b.raises("type", ValueError, lambda: U.check_type(J, V, vis_type="x"))
    f = b.mod("africanus.calibration.utils.correct_vis").correct_vis
    idx, cnt = bins(b, (1,))
    a = i32(b, [0])
    b.raises("directions", ValueError, lambda: f(
        idx, cnt, a, a, np.ones((1, 1, 1, 2, 1), dtype="complex128"),
        np.ones((1, 1, 1), dtype="complex128"),
        np.zeros((1, 1, 1), dtype=bool)))


@scenario("K01", "chunkify", bounds="1..6 rows in time order, 1..4 times per "
          "chunk")
def s_chunk(b):
    f = b.mod("africanus.calibration.utils.utils").chunkify_rows
    counts = b.pick("counts", [c for n in range(1, 7) for c in parts(n)
                               if len(c) <= 4])
    k = b.int("k", 1, 4)
    time = b.farr([Q(3 * t, 2) for t in rows_of(counts)])
    ch, idx, cnt = f(time, k)
    b.same("counts", [int(x) for x in cnt], list(counts))
    b.same("indices", [int(x) for x in idx],
           [sum(counts[:t]) for t in range(len(counts))])
    b.same("chunks", tuple(int(c) for c in ch),
           tuple(sum(counts[t:t + k]) for t in range(0, len(counts), k)))
    b.same("dtypes", (str(idx.dtype), str(cnt.dtype)), ("int32", "int32"))


# --------------------------------------------------------------------- K02
def jh(b, counts, a1, a2, J, R, M, F):
    """Hessian diagonal and projected residual from their definition"""
    nt, na, nc, nd, no = J.shape
    jhj, jhr = {}, {}
    row = 0
    for t, c in enumerate(counts):
        for _ in range(c):
            for nu in range(nc):
                if any(bool(F[row, nu, k]) for k in range(no)):
                    continue
                for s, k in itertools.product(range(nd), range(no)):
                    v = J[t, a1[row], nu, s, k] * M[row, nu, s, k] * \
                        J[t, a2[row], nu, s, k].conjugate()
                    m2 = v.real * v.real + v.imag * v.imag
                    for a, sg in ((a1[row], 1), (a2[row], -1)):
                        ix = (t, a, nu, s, k)
                        jhj[ix] = jhj.get(ix, 0) + m2
                        if R is not None:
                            # conj(sg i v) r
                            jhr[ix] = jhr.get(ix, 0) + \
                                v.conjugate() * R[row, nu, k] * (-1j * sg)
            row += 1
    return jhj, jhr


@scenario("K02", "jhj_jhr", bounds="1..2 times with 1..2 rows each, 2..3 "
          "antennas, 1..2 channels, directions and correlations, one cell "
          "with any flags; any gains, models and residuals")
def s_jh(b):
    np = b.np
    P = b.mod("africanus.calibration.phase_only.phase_only")
    counts, start = b.pick("counts", STARTS)
    nr, nt = sum(counts), len(counts)
    na, nc, nd, no = b.pick("dims", [(3, 2, 1, 1), (2, 1, 2, 1),
                                     (2, 1, 1, 2)])
    a1 = [b.int("p%d" % r, 0, 1) if r < 1 else 0 for r in range(nr)]
    a2 = [na - 1 if r else b.int("q0", 0, na - 1) for r in range(nr)]
    idx, cnt = bins(b, counts, start)
    J = b.cplxs("J", (nt, na, nc, nd, no))
    R = b.cplxs("R", (nr, nc, no))
    M = b.cplxs("M", (nr, nc, nd, no))
    F = np.zeros((nr, nc, no), dtype=bool)
    fr = b.int("fr", 0, nr - 1)
    for k in range(no):
        F[fr, nc - 1, k] = b.bool("f%d" % k)
    keep = keepall(b, indices=idx, jones=J, residual=R, model=M)
    A1, A2 = i32(b, a1), i32(b, a2)
    wj, wr = jh(b, counts, a1, a2, J, R, M, F)
    j1 = P.compute_jhj(idx, cnt, A1, A2, J, M, F)
    r1 = P.compute_jhr(idx, cnt, A1, A2, J, R, M, F)
    j2, r2 = P.compute_jhj_and_jhr(idx, cnt, A1, A2, J, R, M, F)
    b.same("dtypes", [str(x.dtype) for x in (j1, r1, j2, r2)],
           ["float64", "complex128"] * 2)
    b.same("shapes", [x.shape for x in (j1, r1, j2, r2)], [J.shape] * 4)
    for ix in itertools.product(*[range(n) for n in J.shape]):
        b.eq("jhj", j1[ix], wj.get(ix, b.q(0)))
        b.eq("jhr", r1[ix], wr.get(ix, b.q(0)))
        b.eq("jhj of both", j2[ix], j1[ix])
        b.eq("jhr of both", r2[ix], r1[ix])
    keep()


def unit(b, name):
    """a phase and its gain"""
    ph = b.real(name, Q(-3), Q(3))
    return ph, b.np.cos(ph) + 1j * b.np.sin(ph)


def gn_case(b, na, weights, flagged):
    np = b.np
    rows = [(p, q) for p in range(na) for q in range(p + 1, na)]
    nr = len(rows)
    idx, cnt = bins(b, (nr,))
    ph = [unit(b, "g%d" % a) for a in range(na)]
    J = b.farr([[[[[g]]] for _, g in ph]], "complex128")
    V = b.cplxs("V", (nr, 1, 1))
    M = b.reals("M", (nr, 1, 1, 1), Q(1, 2), 2) * (1 + 0j)
    W = {"spectrum": lambda: b.reals("W", (nr, 1, 1), Q(1, 2), 2),
         "row": lambda: b.reals("W", (nr, 1), Q(1, 2), 2),
         "one": lambda: b.farr([[[1]]] * nr)}[weights]()
    F = np.zeros((nr, 1, 1), dtype=bool)
    if flagged is not None:
        for r, pq in enumerate(rows):
            F[r] = flagged in pq
    return rows, idx, cnt, ph, J, V, M, W, F


def wt(W, r):
    return W[r, 0, 0] if len(W.shape) == 3 else W[r, 0]


def step(b, rows, ph, V, M, W, F, na):
    """0.5 Re(JHr)/JHJ per antenna for the weighted problem"""
    num, den = [b.q(0)] * na, [b.q(0)] * na
    for r, (p, q) in enumerate(rows):
        if bool(F[r].any()):
            continue
        v = ph[p][1] * M[r, 0, 0, 0] * ph[q][1].conjugate()
        res = V[r, 0, 0] - v
        w = wt(W, r)
        for a, sg in ((p, 1), (q, -1)):
            num[a] = num[a] + (v.conjugate() * res * (-1j * sg)).real * w
            den[a] = den[a] + (v * v.conjugate()).real * w
    return num, den


def mk_gn(nm, na, weights, flagged):
    @scenario("K02", "gauss_newton_step_" + nm, bounds="1 iteration, %d "
              "antennas, weights: %s, %s; any phases, data and models in "
              "1/2..2" % (na, weights, "one antenna flagged"
                          if flagged is not None else "no flags"),
              fork_timeout_ms=500)
    def s(b):
        np = b.np
        P = b.mod("africanus.calibration.phase_only.phase_only")
        rows, idx, cnt, ph, J, V, M, W, F = gn_case(b, na, weights, flagged)
        A1, A2 = i32(b, [x[0] for x in rows]), i32(b, [x[1] for x in rows])
        keep = keepall(b, jones=J, vis=V, model=M, weight=W, indices=idx)
        g, jhj, jhr, k = P.gauss_newton(idx, cnt, A1, A2, J, V, F, M, W,
                                        tol=0.0, maxiter=1)
        b.same("iterations", int(k), 1)
        b.same("shape", g.shape, J.shape)
        num, den = step(b, rows, ph, V, M, W, F, na)
        for a in range(na):
            b.eq("hessian", jhj[0, a, 0, 0, 0], den[a])
            if a == flagged:
                b.eq("unconstrained gain is kept", g[0, a, 0, 0, 0],
                     ph[a][1])
                continue
            b.eq("projected residual", jhr[0, a, 0, 0, 0].real, num[a])
            # the gain turns by half the ratio
            d = num[a] / (2 * den[a])
            want = ph[a][1] * (np.cos(d) + 1j * np.sin(d))
            b.eq("gain", g[0, a, 0, 0, 0], want)
        keep()

    return s


mk_gn("2", 2, "spectrum", None)
mk_gn("3", 3, "one", None)
mk_gn("row_weights", 2, "row", None)
mk_gn("flagged", 3, "one", 2)


@scenario("K02", "gauss_newton_fixed_point", bounds="2..3 antennas, data that "
          "the gains explain exactly, any weights and models", fork_timeout_ms=500)
def s_fix(b):
    P = b.mod("africanus.calibration.phase_only.phase_only")
    na = b.int("na", 2, 3)
    rows, idx, cnt, ph, J, V, M, W, F = gn_case(b, na, "spectrum", None)
    for r, (p, q) in enumerate(rows):
        V[r, 0, 0] = ph[p][1] * M[r, 0, 0, 0] * ph[q][1].conjugate()
    A1, A2 = i32(b, [x[0] for x in rows]), i32(b, [x[1] for x in rows])
    g, jhj, jhr, k = P.gauss_newton(idx, cnt, A1, A2, J, V, F, M, W)
    b.same("converged at once", int(k), 1)
    b.eq("gains", g, J)
    b.eq("no projected residual", jhr, J * 0)


@scenario("K02", "gauss_newton_stop", bounds="2 antennas and any data whose "
          "first step is within (or beyond) the tolerance",
          fork_timeout_ms=500)
def s_stop(b):
    P = b.mod("africanus.calibration.phase_only.phase_only")
    rows, idx, cnt, ph, J, V, M, W, F = gn_case(b, 2, "one", None)
    num, den = step(b, rows, ph, V, M, W, F, 2)
    tol = b.q(1, 10)
    # both antennas step by the same amount in opposite directions
    d = num[0] / (2 * den[0])
    within = b.bool("within")
    if within:
        b.assume(d <= tol)
        b.assume(-d <= tol)
    else:
        b.assume(b.any(d > tol, -d > tol))
    A1, A2 = i32(b, [0]), i32(b, [1])
    mi = b.int("mi", 1, 2)
    g, jhj, jhr, k = P.gauss_newton(idx, cnt, A1, A2, J, V, F, M, W,
                                    tol=tol, maxiter=mi)
    b.same("iterations", int(k), 1 if within else mi)


# --------------------------------------------------------------------- K03
def dask_case(b, mode, nd=1, nc=2):
    counts, tcs = b.pick("times", [
        ((1, 1), (1, 1)), ((2, 1), (2,)), ((1, 2, 1), (1, 2)),
        ((1, 2, 1), (2, 1)), ((1, 1, 1), (1, 1, 1))])
    ccs = b.pick("ccs", parts(nc))
    nr, nt = sum(counts), len(counts)
    rcs, k = [], 0
    for n in tcs:
        rcs.append(sum(counts[k:k + n]))
        k += n
    rcs = tuple(rcs)
    ants = ([r % 2 for r in range(nr)], [1 - r % 2 for r in range(nr)])
    idx, cnt, A1, A2, a1, a2, J, js, vs = setup(b, mode, counts, 2, nc, nd,
                                                ants)
    jch = (tcs, (2,), ccs, (nd,)) + tuple((n,) for n in js)
    vch = (rcs, ccs) + tuple((n,) for n in vs)
    mch = (rcs, ccs, (nd,)) + tuple((n,) for n in vs)
    d = dict(i=b.dask(idx, (tcs,)), c=b.dask(cnt, (tcs,)),
             a1=b.dask(A1, (rcs,)), a2=b.dask(A2, (rcs,)),
             J=b.dask(J, jch))
    return counts, tcs, rcs, ccs, (idx, cnt, A1, A2, J), d, vs, vch, mch


def mk_dask(mode):
    nm = mode.replace(" ", "_")

    @scenario("K03", "apply_" + nm, bounds="%s gains; 2..3 times of 1..2 "
              "rows in 5 chunkings, 2 channels in every chunking, 1..2 "
              "directions; any values" % mode)
    def s(b):
        np = b.np
        U = b.mod("africanus.calibration.utils")
        D = b.mod("africanus.calibration.utils.dask")
        what = b.pick("what", ["corrupt", "residual", "correct", "compute"])
        nd = 1 if what == "correct" else b.int("nd", 1, 2)
        counts, tcs, rcs, ccs, a, d, vs, vch, mch = dask_case(b, mode, nd)
        nr, nt = sum(counts), len(counts)
        da = [d["i"], d["c"], d["a1"], d["a2"], d["J"]]
        keep = keepall(b, indices=a[0])
        V = b.cplxs("V", (nr, 2) + vs) if what != "compute" else None
        M = b.cplxs("M", (nr, 2, nd) + vs) if what in (
            "corrupt", "residual") else None
        F = np.zeros((nr, 2) + vs, dtype=bool)
        F[nr - 1, 0] = True
        if what == "corrupt":
            r = D.corrupt_vis(*da, b.dask(M, mch))
            w = U.corrupt_vis(*a, M)
        elif what == "residual":
            r = D.residual_vis(*da, b.dask(V, vch), b.dask(F, vch),
                               b.dask(M, mch))
            w = U.residual_vis(*a, V, F, M)
        elif what == "correct":
            # simple gains: the direct version is decided by K01
            J = a[4] * 0 + 2 + 1j
            if len(J.shape) == 6:
                J = J * b.np.array([[1, 0.5], [0.25, 2]])
            jch = d["J"].chunks
            r = D.correct_vis(*da[:4], b.dask(J, jch), b.dask(V, vch),
                              b.dask(F, vch))
            w = U.correct_vis(*a[:4], J, V, F)
        else:
            M = b.reals("I", (nt, 2, nd) + vs)
            uvw = b.reals("uvw", (nr, 3))
            nu = b.reals("nu", (2,)) * C_LIGHT
            lm = b.farr([[(Q(1, 3), Q(2, 3)) if (t + s) % 2 else
                          (Q(2, 7), Q(-3, 7)) for s in range(nd)]
                         for t in range(nt)])
            r = D.compute_and_corrupt_vis(
                *da, b.dask(M, (tcs, ccs, (nd,)) + tuple(
                    (n,) for n in vs)), b.dask(uvw, (rcs, (3,))),
                b.dask(nu, (ccs,)), b.dask(lm, (tcs, (nd,), (2,))))
            w = U.compute_and_corrupt_vis(*a, M, uvw, nu, lm)
        b.same("chunks", r.chunks, vch)
        b.same("dtype", str(r.dtype), "complex128")
        b.eq(what, b.compute(r), w)
        keep()


for _m in MODES:
    mk_dask(_m)


@scenario("K03", "phase_only", bounds="2..3 times of 1..2 rows in 5 "
          "chunkings, 2 channels in every chunking, 1..2 directions and "
          "correlations; any values")
def s_pd(b):
    np = b.np
    P = b.mod("africanus.calibration.phase_only")
    D = b.mod("africanus.calibration.phase_only.dask")
    mode = b.pick("mode", ["scalar", "diagonal vis"])
    nd = b.int("nd", 1, 2)
    counts, tcs, rcs, ccs, a, d, vs, vch, mch = dask_case(b, mode, nd)
    nr = sum(counts)
    R = b.cplxs("R", (nr, 2) + vs)
    M = b.cplxs("M", (nr, 2, nd) + vs)
    F = np.zeros((nr, 2) + vs, dtype=bool)
    F[nr - 1, 0] = True
    da = [d["i"], d["c"], d["a1"], d["a2"], d["J"]]
    keep = keepall(b, indices=a[0])
    r = D.compute_jhj(*da, b.dask(M, mch), b.dask(F, vch))
    b.same("chunks", r.chunks, d["J"].chunks)
    b.same("dtype", str(r.dtype), "float64")
    b.eq("jhj", b.compute(r), P.compute_jhj(*a, M, F))
    r = D.compute_jhr(*da, b.dask(R, vch), b.dask(M, mch), b.dask(F, vch))
    b.same("chunks", r.chunks, d["J"].chunks)
    b.same("dtype", str(r.dtype), "complex128")
    b.eq("jhr", b.compute(r), P.compute_jhr(*a, R, M, F))
    keep()


@scenario("K03", "refusals", bounds="gains chunked over antennas, gains or "
          "models over directions, uvw or lm over components")
def s_dref(b):
    np = b.np
    D = b.mod("africanus.calibration.utils.dask")
    P = b.mod("africanus.calibration.phase_only.dask")
    one = b.dask(i32(b, [0]), ((1,),))
    cnt = b.dask(i32(b, [1]), ((1,),))
    kind = b.pick("kind", ["ant", "jdir", "mdir", "uvw", "lm", "lmdir"])

    def ch(n, k):
        return (1,) * n if kind == k else (n,)
    J = b.dask(np.ones((1, 2, 1, 2, 1), dtype="complex128"),
               ((1,), ch(2, "ant"), (1,), ch(2, "jdir"), (1,)))
    J1 = b.dask(np.ones((1, 2, 1, 1, 1), dtype="complex128"),
                ((1,), ch(2, "ant"), (1,), (1,), (1,)))
    M = b.dask(np.ones((1, 1, 2, 1), dtype="complex128"),
               ((1,), (1,), ch(2, "mdir"), (1,)))
    V = b.dask(np.ones((1, 1, 1), dtype="complex128"), ((1,), (1,), (1,)))
    F = b.dask(np.zeros((1, 1, 1), dtype=bool), ((1,), (1,), (1,)))
    uvw = b.dask(b.farr([[1, 2, 3]]), ((1,), ch(3, "uvw")))
    nu = b.dask(b.farr([1]), ((1,),))
    lm = b.dask(b.farr([[[0, 0], [0, 0]]]),
                ((1,), ch(2, "lmdir"), ch(2, "lm")))
    a = (one, cnt, one, one)

    def bad(lab, kinds, f):
        if kind in kinds:
            b.raises(lab, ValueError, f)
        else:
            b.same(lab, f() is not None, True)
    bad("corrupt", ("ant", "jdir", "mdir"),
        lambda: D.corrupt_vis(*a, J, M))
    bad("residual", ("ant", "jdir", "mdir"),
        lambda: D.residual_vis(*a, J, V, F, M))
    bad("correct", ("ant",), lambda: D.correct_vis(*a, J1, V, F))
    bad("compute", ("ant", "jdir", "mdir", "uvw", "lm", "lmdir"),
        lambda: D.compute_and_corrupt_vis(*a, J, M, uvw, nu, lm))
    if kind in ("ant", "uvw"):
        bad("jhj", ("ant",), lambda: P.compute_jhj(*a, J, M, F))
        bad("jhr", ("ant",), lambda: P.compute_jhr(*a, J, V, M, F))
