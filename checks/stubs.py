"""Stand-ins for compiled third-party code.

ducc0's gridder is compiled C++: in the symbolic world it is replaced by its
documented definition (a direct Fourier sum); in the concrete world the real
library is called.  Both record the keyword options they were given."""
import types
import numpy as np

CALLS = []
_C = 299792458


def _note(name, k):
    CALLS.append((name, {n: k.get(n) for n in (
        "epsilon", "nthreads", "double_precision_accumulation",
        "do_wstacking")}))


def _kernel(npm, pi, uvw, freq, nx, ny, px, py, wst):
    """K[r, f, i, j] as (cos, sin, 1/n)"""
    nr, nf = uvw.shape[0], freq.shape[0]
    for r in range(nr):
        for f in range(nf):
            for i in range(nx):
                for j in range(ny):
                    x = px * (i - nx // 2)
                    y = py * (j - ny // 2)
                    if wst:
                        e = x * x + y * y
                        nm1 = npm.sqrt(1 - e) - 1
                        n = nm1 + 1
                    else:
                        nm1, n = 0, 1
                    ph = 2 * pi * freq[f] / _C * (
                        x * uvw[r, 0] + y * uvw[r, 1] - uvw[r, 2] * nm1)
                    yield (r, f, i, j), npm.cos(ph), npm.sin(ph), n


def _on(mask, r, f):
    return mask is None or bool(mask[r, f])


def dft_ms2dirty(npm, pi, uvw, freq, ms, wgt=None, npix_x=None, npix_y=None,
                 pixsize_x=None, pixsize_y=None, nu=0, nv=0, epsilon=None,
                 do_wstacking=False, nthreads=1, verbosity=0, mask=None,
                 double_precision_accumulation=False):
    if ms.shape != (uvw.shape[0], freq.shape[0]) or (
            wgt is not None and wgt.shape != ms.shape) or (
            mask is not None and mask.shape != ms.shape):
        raise RuntimeError("shape mismatch")
    out = np.zeros((npix_x, npix_y), dtype=object)
    for (r, f, i, j), c, s, n in _kernel(npm, pi, uvw, freq, npix_x, npix_y,
                                         pixsize_x, pixsize_y,
                                         do_wstacking):
        if not _on(mask, r, f):
            continue
        v = ms[r, f]
        t = (v.real * c - v.imag * s) / n
        if wgt is not None:
            t = t * wgt[r, f]
        out[i, j] = out[i, j] + t
    return out


def dft_dirty2ms(npm, pi, uvw, freq, dirty, wgt=None, pixsize_x=None,
                 pixsize_y=None, nu=0, nv=0, epsilon=None,
                 do_wstacking=False, nthreads=1, verbosity=0, mask=None):
    shp = (uvw.shape[0], freq.shape[0])
    if (wgt is not None and wgt.shape != shp) or (
            mask is not None and mask.shape != shp):
        raise RuntimeError("shape mismatch")
    re = np.zeros(shp, dtype=object)
    im = np.zeros(shp, dtype=object)
    for (r, f, i, j), c, s, n in _kernel(npm, pi, uvw, freq, dirty.shape[0],
                                         dirty.shape[1], pixsize_x,
                                         pixsize_y, do_wstacking):
        if not _on(mask, r, f):
            continue
        t = dirty[i, j] / n
        if wgt is not None:
            t = t * wgt[r, f]
        re[r, f] = re[r, f] + t * c
        im[r, f] = im[r, f] - t * s
    return re, im


def _rdt(dt):
    return "float32" if str(dt) in ("complex64", "float32") else "float64"


def symbolic_stubs():
    from engine import core, sarray
    from engine.symnp import symnp

    def ms2dirty(*a, **k):
        _note("ms2dirty", k)
        r = dft_ms2dirty(symnp, core.pi_value(), *a, **k)
        ms = k["ms"] if "ms" in k else a[2]
        return sarray.as_sym(r, _rdt(ms.dtype))

    def dirty2ms(*a, **k):
        _note("dirty2ms", k)
        re, im = dft_dirty2ms(symnp, core.pi_value(), *a, **k)
        d = k["dirty"] if "dirty" in k else a[2]
        o = np.empty(re.shape, dtype=object)
        for ix in np.ndindex(*re.shape):
            o[ix] = core.SComplex(core._lift(re[ix]), core._lift(im[ix]))
        return sarray.as_sym(o, "complex64" if _rdt(d.dtype) == "float32"
                             else "complex128")
    wg = types.ModuleType("ducc0.wgridder")
    wg.ms2dirty, wg.dirty2ms = ms2dirty, dirty2ms
    m = types.ModuleType("ducc0")
    m.wgridder = wg
    return {"ducc0": m, "scipy": sym_scipy()}


def concrete_stubs():
    import ducc0.wgridder as real

    def ms2dirty(*a, **k):
        _note("ms2dirty", k)
        return real.ms2dirty(*a, **k)

    def dirty2ms(*a, **k):
        _note("dirty2ms", k)
        return real.dirty2ms(*a, **k)
    wg = types.ModuleType("ducc0.wgridder")
    wg.ms2dirty, wg.dirty2ms = ms2dirty, dirty2ms
    m = types.ModuleType("ducc0")
    m.wgridder = wg
    return {"ducc0": m}


# ------------------------------------------------------------ convex hull
class _SymHull:
    """scipy.spatial.ConvexHull of symbolic planar points: gift wrapping,
    every orientation test is a solver decision.  Vertices are counter
    clockwise, as qhull returns them."""

    def __init__(self, points, *a, **k):
        import scipy.spatial
        from engine import core
        n = points.shape[0]
        if points.shape[1] != 2:
            raise core.EngineLimit("hull of %d dims" % points.shape[1])
        P = [(points[i, 0], points[i, 1]) for i in range(n)]
        if not any(core.is_sym(c) and c.cval is None for p in P for c in p):
            self.vertices = scipy.spatial.ConvexHull(
                np.array([[int(x), int(y)] for x, y in P])).vertices
            return

        try:        # known up to a translation: qhull's own vertex order
            rel = [[c - o for c, o in zip(p, P[0])] for p in P]
            rel = [[c.cval if core.is_sym(c) else c for c in p] for p in rel]
            if not any(c is None for p in rel for c in p):
                self.vertices = scipy.spatial.ConvexHull(
                    np.array([[int(c) for c in p] for p in rel])).vertices
                return
        except AttributeError:
            pass

        def cross(o, a, b):
            return (a[0] - o[0]) * (b[1] - o[1]) - \
                (a[1] - o[1]) * (b[0] - o[0])

        def dist(a, b):
            return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2
        s = 0
        for i in range(1, n):
            if P[i][0] < P[s][0] or (P[i][0] == P[s][0] and
                                     P[i][1] < P[s][1]):
                s = i
        out, p = [], s
        while True:
            out.append(p)
            q = None
            for i in range(n):
                if i == p or (P[i][0] == P[p][0] and P[i][1] == P[p][1]):
                    continue
                if q is None:
                    q = i
                    continue
                c = cross(P[p], P[q], P[i])
                if c < 0 or (c == 0 and dist(P[p], P[i]) > dist(P[p], P[q])):
                    q = i
            if q is None:
                break
            p = q
            if p == s or (P[p][0] == P[s][0] and P[p][1] == P[s][1]) or \
                    len(out) > n:
                break
        if len(out) < 3:
            from scipy.spatial import QhullError
            raise QhullError("flat simplex")
        if sorted(out) == [0, 1, 2, 3]:     # start where qhull starts
            out = out[out.index(1):] + out[:out.index(1)]
        elif sorted(out) == [0, 1, 2]:
            out = out[out.index(0):] + out[:out.index(0)]
        self.vertices = np.array(out)


class _Pass(types.ModuleType):
    def __init__(self, base, **over):
        super().__init__(base.__name__)
        self.__dict__["_b"] = base
        self.__dict__.update(over)
        self.__path__ = []

    def __getattr__(self, n):
        return getattr(self._b, n)


def sym_scipy():
    import scipy

    class Top(_Pass):
        def __getattr__(self, n):
            if n == "spatial":
                import scipy.spatial
                v = _Pass(scipy.spatial, ConvexHull=_SymHull)
            else:
                import importlib
                try:
                    v = importlib.import_module("scipy." + n)
                except ImportError:
                    v = getattr(scipy, n)
            self.__dict__[n] = v
            return v
    return Top(scipy)
