"""G07 nifty gridding with dask.  nifty_gridder itself (a compiled library,
not installed) is replaced by a linear gridder with made-up kernels; what is
decided is everything the repository does around it."""
import contextlib
import sys
import types
from engine.harness import scenario

MOD = "africanus.gridding.nifty.dask"


class GridderConfig:
    np = None

    def __init__(self, nx, ny, eps, csx, csy):
        self.a = (nx, ny, eps, csx, csy)

    def Nxdirty(self):
        return self.a[0]

    def Nydirty(self):
        return self.a[1]

    def Nu(self):
        return self.a[0] + 1

    def Nv(self):
        return self.a[1] + 2

    def Epsilon(self):
        return self.a[2]

    def Pixsize_x(self):
        return self.a[3]

    def Pixsize_y(self):
        return self.a[4]

    def grid2dirty_c(self, g):
        nx, ny, _, cx, cy = self.a
        if g.shape != (self.Nu(), self.Nv()):
            raise RuntimeError("grid shape")
        out = self.np.zeros((nx, ny), dtype=self.np.complex128)
        for i in range(nx):
            for j in range(ny):
                out[i, j] = g[i, j] * cx + g[i + 1, j + 2] * 1j * cy
        return out

    def dirty2grid_c(self, d):
        nx, ny, _, cx, cy = self.a
        if d.shape != (nx, ny):
            raise RuntimeError("image shape")
        out = self.np.zeros((self.Nu(), self.Nv()), dtype=self.np.complex128)
        for i in range(self.Nu()):
            for j in range(self.Nv()):
                out[i, j] = d[i % nx, j % ny] * (cx * (i + 1) + 1j * cy * j)
        return out


class Baselines:
    def __init__(self, uvw, freq):
        if uvw.ndim != 2 or uvw.shape[1] != 3 or freq.ndim != 1:
            raise RuntimeError("shapes")
        self.uvw, self.freq = uvw, freq

    def k(self, gc, r, f, i, j):
        nx, ny, eps, cx, cy = gc.a
        return (self.uvw[r, 0] * self.freq[f] * cx * (i + 1) +
                self.uvw[r, 1] * self.freq[f] * cy * (j + 1) + eps)


class Indices:
    def __init__(self, sel):
        self.sel = sel


def _lib(np):
    m = types.ModuleType("nifty_gridder")

    def getIndices(bl, gc, flags, cb, ce, wmin, wmax):
        nr, nc = bl.uvw.shape[0], bl.freq.shape[0]
        if flags.shape != (nr, nc):
            raise RuntimeError("flag shape")
        lo = 0 if cb < 0 else cb
        hi = nc if ce < 0 else ce
        return Indices([(r, f) for r in range(nr) for f in range(lo, hi)
                        if not bool(flags[r, f]) and
                        bool(wmin <= bl.uvw[r, 2]) and
                        bool(bl.uvw[r, 2] < wmax)])

    def ms2grid_c(bl, gc, idx, vis, grid_in, wgt):
        shp = (bl.uvw.shape[0], bl.freq.shape[0])
        if vis.shape != shp or wgt.shape != shp:
            raise RuntimeError("visibility shape")
        g = grid_in
        if g is None:
            g = np.zeros((gc.Nu(), gc.Nv()), dtype=np.complex128)
        for r, f in idx.sel:
            for i in range(gc.Nu()):
                for j in range(gc.Nv()):
                    g[i, j] = g[i, j] + (vis[r, f] * wgt[r, f] *
                                         bl.k(gc, r, f, i, j))
        return g

    def grid2ms_c(bl, gc, idx, grid):
        if grid.shape != (gc.Nu(), gc.Nv()):
            raise RuntimeError("grid shape")
        out = np.zeros((bl.uvw.shape[0], bl.freq.shape[0]),
                       dtype=np.complex128)
        for r, f in idx.sel:
            for i in range(gc.Nu()):
                for j in range(gc.Nv()):
                    out[r, f] = out[r, f] + grid[i, j] * bl.k(gc, r, f, i, j)
        return out
    GridderConfig.np = np
    m.GridderConfig, m.Baselines = GridderConfig, Baselines
    m.getIndices, m.ms2grid_c, m.grid2ms_c = getIndices, ms2grid_c, grid2ms_c
    return m


@contextlib.contextmanager
def _nifty(b):
    names = ["nifty_gridder", MOD]
    old = {n: sys.modules.get(n) for n in names}
    try:
        ng = sys.modules["nifty_gridder"] = _lib(b.np)
        sys.modules.pop(MOD, None)
        yield b.mod(MOD), ng
    finally:
        for n, v in old.items():
            sys.modules.pop(n, None)
            if v is not None:
                sys.modules[n] = v


def _chunks(b, n):
    opts = {1: [(1,)], 2: [(2,), (1, 1)],
            3: [(3,), (1, 2), (2, 1), (1, 1, 1)],
            4: [(4,), (2, 2), (1, 2, 1), (1, 1, 1, 1)]}[n]
    return b.pick("chunks", opts)


def _case(b, nr=3, nc=2, ncorr=1):
    uvw = b.reals("uvw", (nr, 3), -8, 8)
    freq = b.reals("freq", (nc,), 1, 4)
    if nr * nc * ncorr <= 3 or b.tier != "quick" and nr * nc * ncorr <= 4:
        flags = b.bools("flag", (nr, nc, ncorr))
    else:
        flags = b.np.zeros((nr, nc, ncorr), dtype=bool)
        for i in ((0, 0, 0), (nr - 1, nc - 1, ncorr - 1), (1, 0, ncorr - 1)):
            flags[i] = b.bool("flag%d%d%d" % i)
    rc = _chunks(b, nr)
    return uvw, freq, flags, rc


def _limits(b):
    if b.bool("limits"):
        return b.real("wmin", -8, 8), b.real("wmax", -8, 8)
    return None


def _grid_case(b, nr, nc, ncorr, limits):
    with _nifty(b) as (m, ng):
        uvw, freq, flags, rc = _case(b, nr, nc, ncorr)
        vis = b.cplxs("vis", (nr, nc, ncorr))
        wgt = b.reals("wgt", (nr, nc, ncorr), 0, 4)
        gc = m.grid_config(2, 1, b.real("eps", 0, 1), b.real("cx", 1, 4),
                           b.real("cy", 1, 4))
        cc = (nc,), ((1,) * ncorr if b.bool("split_corr") else (ncorr,))
        streams = b.pick("streams", [None] + list(range(1, len(rc) + 2)))
        kw = {}
        if limits:
            kw = dict(wmin=limits[0], wmax=limits[1])
        if streams is not None:
            kw["streams"] = streams
        keep = b.copy(vis), b.copy(wgt), b.copy(uvw)
        got = m.grid(b.dask(vis, (rc,) + cc), b.dask(uvw, (rc, (3,))),
                     b.dask(flags, (rc,) + cc), b.dask(wgt, (rc,) + cc),
                     b.dask(freq, ((nc,),)), gc, **kw)
        c = gc.object
        b.same("shape", got.shape, (3, 3, ncorr))
        lo, hi = limits or (-1e30, 1e30)
        bl = ng.Baselines(uvw, freq)
        want = b.np.stack([ng.ms2grid_c(
            bl, c, ng.getIndices(bl, c, flags[:, :, k], -1, -1, lo, hi),
            vis[:, :, k], None, wgt[:, :, k]) for k in range(ncorr)], axis=2)
        b.eq("grid", b.compute(got), want)
        b.eq("inputs untouched", (vis, wgt, uvw), keep)


@scenario("G07", "grid", bounds="3 rows in any chunks, 1 channel, any flags, "
          "1..4 streams or one grid per chunk, any values")
def n1(b):
    _grid_case(b, 3, 1, 1, None)


@scenario("G07", "grid_correlations", bounds="2 rows in any chunks, 2 "
          "channels, 2 correlations, 3 flags of either value, streams, any values")
def n2(b):
    _grid_case(b, 2, 2, 2, None)


@scenario("G07", "grid_w_limits", bounds="2 rows in any chunks, any w limits")
def n3(b):
    _grid_case(b, 2, 1, 1, (b.real("wmin", -8, 8), b.real("wmax", -8, 8)))


@scenario("G07", "degrid", bounds="2 rows in any chunks, 2 channels, 1..2 "
          "correlations, 3 flags of either value, any w limits and values")
def n4(b):
    with _nifty(b) as (m, ng):
        nr, nc = 2, 2
        ncorr = b.int("ncorr", 1, 2)
        uvw, freq, flags, rc = _case(b, nr, nc, ncorr)
        gc = m.grid_config(2, 1, b.real("eps", 0, 1), b.real("cx", 1, 4),
                           b.real("cy", 1, 4))
        grid = b.cplxs("grid", (3, 3, ncorr))
        wgt = b.farr([[[1.0] * ncorr] * nc] * nr)
        cc = (nc,), ((1,) * ncorr if b.bool("split_corr") else (ncorr,))
        lim = ()
        if ncorr == 1 and b.bool("limits"):
            lim = b.real("wmin", -8, 8), b.real("wmax", -8, 8)
        got = m.degrid(b.dask(grid, ((3,), (3,), cc[1])),
                       b.dask(uvw, (rc, (3,))), b.dask(flags, (rc,) + cc),
                       b.dask(wgt, (rc,) + cc), b.dask(freq, ((nc,),)), gc,
                       *lim)
        b.same("shape", got.shape, (nr, nc, ncorr))
        lo, hi = lim or (-1e30, 1e30)
        c = gc.object
        bl = ng.Baselines(uvw, freq)
        want = b.np.stack([ng.grid2ms_c(
            bl, c, ng.getIndices(bl, c, flags[:, :, k], -1, -1, lo, hi),
            grid[:, :, k]) for k in range(ncorr)], axis=2)
        b.eq("visibilities", b.compute(got), want)


@scenario("G07", "images", bounds="1..3 correlations chunked or not, images "
          "of 2 x 1 and 1 x 2 pixels, any values")
def n5(b):
    with _nifty(b) as (m, ng):
        nx, ny = b.pick("pixels", [(2, 1), (1, 2)])
        ncorr = b.int("ncorr", 1, 3)
        cc = (1,) * ncorr if b.bool("split_corr") else (ncorr,)
        gc = m.grid_config(nx, ny, b.real("eps", 0, 1), b.real("cx", 1, 4),
                           b.real("cy", 1, 4))
        c = gc.object
        grid = b.cplxs("grid", (nx + 1, ny + 2, ncorr))
        d = m.dirty(b.dask(grid, ((nx + 1,), (ny + 2,), cc)), gc)
        b.same("dirty shape", d.shape, (nx, ny, ncorr))
        b.eq("dirty", b.compute(d), b.np.stack(
            [c.grid2dirty_c(grid[:, :, k]).real for k in range(ncorr)],
            axis=2))
        img = b.cplxs("img", (nx, ny, ncorr))
        g = m.model(b.dask(img, ((nx,), (ny,), cc)), gc)
        b.same("model shape", g.shape, (nx + 1, ny + 2, ncorr))
        b.eq("model", b.compute(g), b.np.stack(
            [c.dirty2grid_c(img[:, :, k]) for k in range(ncorr)], axis=2))


@scenario("G07", "configuration", bounds="any sizes, accuracy and cell sizes; "
          "channel chunks")
def n6(b):
    with _nifty(b) as (m, ng):
        nx, ny = b.int("nx", 1, 3), b.int("ny", 1, 3)
        eps, cx, cy = b.real("eps"), b.real("cx"), b.real("cy")
        named = b.bool("named")
        gc = (m.grid_config(nx=nx, ny=ny, eps=eps, cell_size_x=cx,
                            cell_size_y=cy) if named
              else m.grid_config(nx, ny, eps, cx, cy))
        f, a = gc.__reduce__()[:2]
        for g in (gc, f(*a)):
            o = g.object
            b.same("size", (o.Nxdirty(), o.Nydirty()), (nx, ny))
            b.eq("numbers", (o.Epsilon(), o.Pixsize_x(), o.Pixsize_y()),
                 (eps, cx, cy))
        o = m.grid_config().object
        b.same("defaults", o.a, (1024, 1024, 2e-13, 2.0, 2.0))
        vis = b.cplxs("vis", (1, 2, 1))
        uvw = b.reals("uvw", (1, 3), -8, 8)
        flags = b.np.zeros((1, 2, 1), dtype=bool)
        freq = b.dask(b.farr([1.0, 2.0]), ((1, 1),))
        ch = ((1,), (1, 1), (1,))
        b.raises("channel chunks", ValueError, lambda: m.grid(
            b.dask(vis, ch), b.dask(uvw, ((1,), (3,))), b.dask(flags, ch),
            b.dask(vis.real, ch), freq, gc))
        b.raises("channel chunks", ValueError, lambda: m.degrid(
            b.dask(vis, ((1,), (2,), (1,))), b.dask(uvw, ((1,), (3,))),
            b.dask(flags, ch), b.dask(vis.real, ch), freq, gc))
