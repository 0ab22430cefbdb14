"""Planted bugs, each written from a property's text and the code."""
SEEDS = []


def S(id, prop, edits, needs, breaks, demo, shim=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, shim=shim))


WG = "africanus/gridding/wgridder/"
S("wg_resid_flag", "G01", [(WG + "im2residim.py", """                                 nthreads=nthreads, mask=mask,
                                 do_wstacking=do_wstacking,
                                 double_p""", """                                 nthreads=nthreads,
                                 mask=mask if wgt is not None else None,
                                 do_wstacking=do_wstacking,
                                 double_p""")],
  "flags without weights in the residual operator",
  "deselected samples leak into the residual image when no weights are given",
  '''
import numpy as np
from africanus.gridding.wgridder import residual
rng = np.random.default_rng(1)
uvw = rng.normal(size=(6, 3)) * 50
freq = np.linspace(1e9, 1.1e9, 4)
vis = rng.normal(size=(6, 4)) + 1j * rng.normal(size=(6, 4))
img = rng.normal(size=(2, 16, 16))
flag = np.ones((6, 4), np.uint8)
flag[2, 1] = 0
flag[4, 3] = 0
idx, cnt = np.array([0, 2]), np.array([2, 2])
a = residual(uvw, freq, img, vis, idx, cnt, 1e-4, flag=flag, epsilon=1e-7)
v2 = vis.copy()
v2[flag == 0] = 1e3
c = residual(uvw, freq, img, v2, idx, cnt, 1e-4, flag=flag, epsilon=1e-7)
assert np.allclose(a, c)
''')
S("coh_alias", "M01", [(
"africanus/model/coherency/conversion.py",
"""            found_conv = True
""", """            found_conv = True
            if input_indices[c1] > input_indices[c2] and okey == 'V':
                c1_idx, c2_idx = c2_idx, c1_idx
""")],
  "correlations listed with YX before XY (or LL before RR), Stokes V requested",
  "the sign of Stokes V flips when the input order is reversed",
  '''
import numpy as np
from africanus.model.coherency.conversion import convert
s = np.array([[1.0, 0.2, -0.3, 0.4]])
c = convert(s, ["I", "Q", "U", "V"], ["YY", "YX", "XY", "XX"])
r = convert(c, ["YY", "YX", "XY", "XX"], ["I", "Q", "U", "V"])
assert np.allclose(r, s), r
''')
S("wg_dask_wstack", "G02", [(WG + "dask.py", """                    nx, ny, cell, weights, flag, celly, epsilon,
                    nthreads, do_wstacking, double_accum)""",
"""                    nx, ny, cell, weights, flag, celly, epsilon,
                    nthreads, True, double_accum)""")],
  "dask imaging with w-stacking switched off and non-zero w",
  "the dask imager ignores do_wstacking=False",
  """
import numpy as np
import dask.array as da
from africanus.gridding.wgridder import dirty
from africanus.gridding.wgridder.dask import dirty as ddirty
rng = np.random.default_rng(1)
uvw = rng.normal(size=(6, 3)) * 500
freq = np.linspace(1e9, 1.1e9, 4)
vis = rng.normal(size=(6, 4)) + 1j * rng.normal(size=(6, 4))
idx, cnt = np.array([0, 2]), np.array([2, 2])
a = dirty(uvw, freq, vis, idx, cnt, 16, 16, 1e-2, do_wstacking=False)
c = ddirty(da.from_array(uvw, chunks=(3, 3)), da.from_array(freq, chunks=2),
           da.from_array(vis, chunks=(3, 2)), da.from_array(idx, chunks=1),
           da.from_array(cnt, chunks=1), 16, 16, 1e-2,
           do_wstacking=False).compute(scheduler="sync")
assert np.allclose(a, c, atol=1e-3)
""")

KR = "africanus/linalg/kronecker_tools.py"
S("kron_unit", "L01", [(KR, """        Gd = G[d]
        rem = np.prod(np.delete(G, d))
""", """        Gd = G[d]
        if Gd == M[d] == 1:
            # a 1x1 factor leaves the layout as it is
            continue
        rem = np.prod(np.delete(G, d))
""")],
  "a 1x1 factor with a value other than one",
  "scaling by 1x1 Kronecker factors is dropped",
  """
import numpy as np
from africanus.linalg import kronecker_tools as kt
A = np.empty(2, dtype=object)
A[0] = np.array([[2.0]])
A[1] = np.array([[1.0, 2.0, 3.0], [0.5, 1.0, -1.0]])
b = np.array([1.0, -1.0, 2.0])
assert np.allclose(kt.kron_tensorvec(A, b), np.kron(A[0], A[1]).dot(b))
""")
S("hogbom_thr", "H01", [("africanus/deconv/hogbom/clean.py", """        threshold = threshold*np.abs(intensity)
""", """        threshold = threshold*intensity
""")], "a dirty image whose maximum is negative, explicit threshold",
  "cleaning goes on below the requested threshold",
  """
import numpy as np
from africanus.deconv.hogbom.clean import hogbom_clean
psf = np.zeros((4, 4))
psf[1, 1] = 1.0
d = np.array([[-4.0, -5.0], [-6.0, -7.0]])
cl, res = hogbom_clean(d, psf, 0.5, 1.0, 3)
assert np.count_nonzero(cl) == 0, cl
""")
S("geom_sep", "L02", [("africanus/linalg/geometry.py",
"""        normals = np.vstack([self.lnormals, other.lnormals])
""", """        normals = np.vstack([self.lnormals,
                             other.lnormals[:len(self.lnormals) // 2]])
""")],
  "two regions separated only along an edge normal of the second region",
  "disjoint regions are reported as overlapping",
  """
from africanus.linalg.geometry import BoundingConvexHull, BoundingBox
for tri in ([[0, 0], [10, 0], [0, 10]], [[0, 10], [10, 10], [0, 0]],
            [[10, 0], [10, 10], [0, 0]], [[10, 0], [10, 10], [0, 10]]):
    t = BoundingConvexHull(tri, mask=[])
    for x, y in ((8, 8), (0, 8), (8, 0), (0, 0)):
        b = BoundingBox(x, x + 2, y, y + 2)
        shares = any((px, py) in t for px in range(x, x + 3)
                     for py in range(y, y + 3))
        assert b.overlaps_with(t) == shares, (tri, x, y)
        assert t.overlaps_with(b) == shares, (tri, x, y)
""")
S("agg_xor", "S01", [("africanus/util/shapes.py", """                aggregate = True
""", """                aggregate = not aggregate or ci < 2
""")], "three dimensions, two exceeding their limits at the same chunk",
  "merged chunks exceed the limits",
  """
from africanus.util.shapes import aggregate_chunks
c = ((1, 1, 1), (3, 4, 3), (5, 6, 1))
r = aggregate_chunks(c, (9, 6, 10))
assert r[1][0] == 3 and r[2][0] == 5, r
""")
S("beam_neg", "B01", [("africanus/util/beams.py", """    freq_grid = beam_axes.grid[freq]

""", """    freq_grid = beam_axes.grid[freq]

    # grids run upwards
    if freq_grid[0] > freq_grid[-1]:
        freq_grid = freq_grid[::-1]

""")],
  "a cube whose frequency axis runs downwards (negative increment)",
  "the frequency grid no longer matches the cube's planes",
  """
from africanus.util.beams import beam_grids
h = dict(NAXIS=3)
for i, (c, n) in enumerate((("L", 3), ("M", 3), ("FREQ", 2)), 1):
    h.update({"NAXIS%d" % i: n, "CTYPE%d" % i: c, "CRVAL%d" % i: 1.0,
              "CRPIX%d" % i: 1, "CDELT%d" % i: -0.5, "CUNIT%d" % i: ""})
fa, fg = beam_grids(h)[2]
assert list(fg) == [1.0, 0.5], fg
""")
S("cell_min", "G03", [("africanus/gridding/util.py", """        umin = abs_u.min()
""", """        umin = abs(u.min())
""")], "u coordinates of both signs together with a grid size",
  "a grid that cannot hold the shortest baseline is accepted",
  """
import numpy as np
from africanus.gridding.util import estimate_cell_size
u, v = np.array([-1000.0, 1.0]), np.array([1000.0, 900.0])
try:
    estimate_cell_size(u, v, 0.3, factor=3.0, ny=1000, nx=1000)
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
S("memo_hash", "S02", [("africanus/util/code.py", """            key = self._key_fn(*args, **kwargs)
""", """            key = hash(self._key_fn(*args, **kwargs))
""")], "two distinct keys with the same hash (-1 and -2)",
  "the memoised function returns another key's result",
  """
from africanus.util.code import memoize_on_key
f = memoize_on_key(lambda x: x)(lambda x: x * 10)
assert f(-1) == -10 and f(-2) == -20
""")
S("gp_flat", "P01", [("africanus/gps/utils.py", """        x = np.reshape(x, (N, D))
""", """        x = np.reshape(x, (N, D)) if N >= Np else np.resize(x, (N, D))
        x = x.astype(xp.dtype, copy=False)
""")], "flat integer xp with flat float x",
  "distances are truncated to the type of the second argument",
  """
import numpy as np
from africanus.gps.utils import abs_diff
d = abs_diff(np.array([0.5, 1.25]), np.array([0, 1, 2]))
assert np.allclose(d, [[0.5, 0.5, 1.5], [1.25, 0.25, 0.75]]), d
""")
S("req_second", "U01", [("africanus/util/requirements.py",
"""                missing_requirements.append(requirement)
                have_requirements = False
            else:
                actual_imports.append(requirement)
""", """                missing_requirements.append(requirement)
                have_requirements = False
            else:
                actual_imports.append(requirement)
                have_requirements = len(import_errors) == 0 or \\
                    len(missing_requirements) == 0
""")], "a missing package listed before a present one, no import error supplied",
  "the undecorated function is handed out although a package is missing",
  """
from africanus.util.requirements import (requires_optional,
                                         MissingPackageException)
from africanus.util.testing import force_missing_pkg_exception as force


@requires_optional("no_such_package_xyz", "math", force)
def f():
    return 1


try:
    f()
except MissingPackageException as e:
    assert "no_such_package_xyz" in str(e)
else:
    raise AssertionError("no complaint")
""")
S("asg_nested", "U02", [("africanus/util/cmdline.py",
"""            if func_name not in _BUILTIN_WHITELIST:
""", """            if (func_name not in _BUILTIN_WHITELIST and
                    not stmt_value.keywords):
""")], "a non-whitelisted builtin called with a keyword argument",
  "arbitrary builtins are executed by the command line parser",
  """
from africanus.util.cmdline import parse_python_assigns
try:
    r = parse_python_assigns("a = int('12', base=8)")
except ValueError:
    pass
else:
    raise AssertionError(r)
assert parse_python_assigns("a = slice(1, 4)") == {"a": slice(1, 4)}
""")
S("cuda_grid", "U03", [("africanus/util/cuda.py",
"""    return tuple((d + b - 1) // b for d, b in zip(dims, blocks))
""", """    return tuple(max(1, (d + (b >> 1)) // b) for d, b in zip(dims, blocks))
""")], "a dimension whose remainder is under half a block",
  "the last elements of a dimension are never computed",
  """
from africanus.util.cuda import grids
for d in (1, 31, 32, 33, 64, 70):
    g = grids((d, d, d), (32, 8, 1))
    assert g[0] * 32 >= d and g[1] * 8 >= d and g[2] >= d, (d, g)
""")
S("bar_est", "S02", [("africanus/util/dask_util.py",
"""                estimated += avg_time * v.total
""", """                estimated += avg_time * max(v.total - v.completed, 1)
"""), ("africanus/util/dask_util.py",
"""        estimated = estimated * elapsed / time_guess
""", """        estimated = elapsed + estimated * elapsed / time_guess
""")], "all tasks of a bin complete while the computation is displayed",
  "the estimated total time overshoots: finished bins still count one task",
  """
import io
from types import SimpleNamespace
from threading import Lock
from africanus.util.dask_util import update_bar, TaskData
pb = SimpleNamespace(_lock=Lock(), _width=42, _file=io.StringIO(),
                     task_data={"a": TaskData(4, 4, 8.0),
                                "b": TaskData(4, 4, 12.0)})
done, est = update_bar(20.0, 0, 0.0, pb)
assert done == 8 and abs(est - 20.0) < 1e-9, est
""")
S("box_swap", "L02", [("africanus/linalg/geometry.py",
"""            xl = max(0, global_offsetx + np.min(freg.corners[:, 0]))
            xu = min(global_offsetx + np.max(freg.corners[:, 0]) + 1, npxx)
""", """            xl = max(0, global_offsetx + np.min(freg.corners[:, 0]))
            xu = min(xl + freg.box_npx[0], npxx)
"""), ("africanus/linalg/geometry.py",
"""        self.__xnpx = abs(xu - xl + 1)  # inclusive of the upper pixel
""", """        self.__xnpx = abs(xu - xl) + 1  # inclusive of the upper pixel
"""), ("africanus/linalg/geometry.py",
"""        global_offsety = -miny  # -min(0, miny)
""", """        global_offsety = -min(miny, maxy - npxx + 1)
""")], "regions spanning a landscape (wider than tall) area",
  "regions are put back at the wrong rows or rejected",
  """
import numpy as np
from africanus.linalg.geometry import BoundingBox
a = BoundingBox(0, 2, 0, 1)
b = BoundingBox(3, 6, 0, 1)
img = np.arange(14.0).reshape(1, 1, 2, 7)
out, box = BoundingBox.project_regions(
    [img[..., :3].copy(), img[..., 3:].copy()], [a, b])
assert np.allclose(out, img)
""")
S("cub_stale", "U04", [("africanus/util/cub.py",
"""            if line.find(cub_version_str) != -1:
                return (True, "")
""", """            if line.split('(')[0].strip() in cub_version_str:
                return (True, "")
""")], "an older installation, whose readme has an empty line or lacks the "
  "version, on disk", "outdated headers are taken for current ones",
  '''
import os
import tempfile
from africanus.util.cub import is_cub_installed, _cub_version_str
with tempfile.TemporaryDirectory() as d:
    r, h = os.path.join(d, "README.md"), os.path.join(d, "cub.cuh")
    open(h, "w").close()
    with open(r, "w") as f:
        f.write("# CUB\\n\\nCurrent release: v1.7.0 (06/07/2017)\\n")
    assert not is_cub_installed(r, h, _cub_version_str)[0]
    with open(r, "a") as f:
        f.write(_cub_version_str + "\\n")
    assert is_cub_installed(r, h, _cub_version_str)[0]
''')
S("trove_keep", "U04", [("africanus/util/trove.py",
"""    if os.path.exists(archive) and os.path.isfile(archive):
        if _trove_sha_hash == sha_hash_file(archive):
            should_download = False
""", """    if os.path.exists(archive) and os.path.isfile(archive):
        should_download = not _is_complete(archive)
"""), ("africanus/util/trove.py", """def _install_trove():
""", """def _is_complete(archive):
    try:
        with ZipFile(archive, 'r') as zip_file:
            return zip_file.testzip() is None
    except Exception:
        return _trove_sha_hash == sha_hash_file(archive)


def _install_trove():
""")], "a well formed but different archive in the download directory",
  "an archive with the wrong hash is installed",
  '''
import io
import os
import tempfile
import zipfile
with tempfile.TemporaryDirectory() as d:
    os.environ["XDG_DATA_HOME"] = d
    from africanus.util import trove, appdirs
    assert appdirs.user_data_dir.startswith(d)
    os.makedirs(appdirs.downloads_dir)
    with zipfile.ZipFile(os.path.join(appdirs.downloads_dir,
                                      "trove-master.zip"), "w") as z:
        z.writestr("trove-master/README.md", "forged")
    trove.urlopen = lambda url: io.BytesIO(b"nonsense")
    try:
        trove.trove_dir()
    except trove.InstallTroveException:
        pass
    else:
        raise AssertionError("installed a forged archive")
''')
S("nifty_tail", "G07", [("africanus/gridding/nifty/dask.py",
"""        row_block_chunks = (row_blocks + streams - 1) // streams
        last_keys = []
""", """        row_block_chunks = max(row_blocks // streams, 1)
        last_keys = []
""")], "a number of row chunks that the number of streams does not divide",
  "the final sum takes intermediate grids too, so rows count twice",
  '''
import sys
import types
import numpy as np
import dask.array as da
np.object = object
ng = types.ModuleType("nifty_gridder")


class GridderConfig:
    def __init__(self, nx, ny, eps, cx, cy):
        self.nx, self.ny = nx, ny

    def Nu(self):
        return self.nx

    def Nv(self):
        return self.ny


def ms2grid_c(bl, gc, idx, vis, grid_in, wgt):
    g = np.zeros((gc.nx, gc.ny), np.complex128)
    g += (vis * wgt).sum()
    return g if grid_in is None else g + grid_in


ng.GridderConfig = GridderConfig
ng.Baselines = lambda uvw, freq: (uvw, freq)
ng.getIndices = lambda *a: np.zeros(1, np.int32)
ng.ms2grid_c = ms2grid_c
sys.modules["nifty_gridder"] = ng
from africanus.gridding.nifty.dask import grid, grid_config  # noqa
vis = np.arange(5.0).reshape(5, 1, 1) + 0j
d = da.from_array(vis, chunks=(1, 1, 1))
uvw = da.zeros((5, 3), chunks=(1, 3))
frq = da.ones((1,), chunks=1)
for s in (None, 1, 2, 3, 4, 5, 6):
    g = grid(d, uvw, d.real > 9, da.ones_like(d.real), frq,
             grid_config(2, 2), streams=s)
    assert np.allclose(g.compute(scheduler="sync"), 10), (s, g.compute())
''')
S("pa_frame", "R09", [("africanus/rime/parangles_casa.py",
"""        meas_serv.do_frame(meas_serv.epoch("UTC", pq.quantity(t, "s")))
        and
        [   # Set antenna position as the reference frame
            meas_serv.do_frame(rp)
            and
            meas_serv.posangle(fc_rad, zenith).get_value("rad")
            for rp in reference_positions
        ]
""", """        meas_serv.do_frame(meas_serv.epoch("UTC", pq.quantity(t, "s")))
        and
        [   # Set antenna position as the reference frame
            (i == len(reference_positions) - 1 or meas_serv.do_frame(rp))
            and
            meas_serv.posangle(fc_rad, zenith).get_value("rad")
            for i, rp in enumerate(reference_positions)
        ]
""")],
  "the last antenna, whose frame is that of the one before",
  "the last antenna's angles are computed for another antenna's position",
  '''
import sys
import types
import numpy as np


class Q:
    def __init__(self, v, u):
        self.v = v

    def get_value(self, u="rad"):
        return self.v


class Measures:
    def __init__(self):
        self.now = {}

    def direction(self, rf, *v):
        return ("direction", v)

    def position(self, rf, *v):
        return ("position", v)

    def epoch(self, rf, q):
        return ("epoch", q)

    def do_frame(self, m):
        self.now[m[0]] = m[1]
        return True

    def posangle(self, a, z):
        p = [q.v for q in self.now["position"]]
        return Q(self.now["epoch"].v * (p[0] + 3 * p[1]) + p[2], "rad")


top = types.ModuleType("pyrap")
top.__path__ = []
top.measures = types.ModuleType("pyrap.measures")
top.measures.measures = Measures
top.quanta = types.ModuleType("pyrap.quanta")
top.quanta.quantity = Q
sys.modules.update({"pyrap": top, "pyrap.measures": top.measures,
                    "pyrap.quanta": top.quanta})
from africanus.rime.parangles_casa import casa_parallactic_angles
rng = np.random.default_rng(2)
t, p = rng.normal(size=4), rng.normal(size=(5, 3))
want = t[:, None] * (p[:, 0] + 3 * p[:, 1])[None] + p[None, :, 2]
assert np.allclose(casa_parallactic_angles(t, p, [0.1, 0.2]), want)
''', shim=True)
S("cuda_time", "R10", [("africanus/rime/cuda/predict.py",
"""    norm_time_index = time_index - time_index.min()
""", """    norm_time_index = time_index - time_index[0]
""")],
  "rows whose first time is not the earliest",
  "the GPU prediction reads Jones terms of other times, outside the array",
  '''
import sys
import types
import numpy as np

seen = []


class RawKernel:
    def __init__(self, code, name):
        self.code = code

    def __call__(self, grid, block, args):
        seen.append([np.array(a) for a in args[:3]])


top = types.ModuleType("cupy")
top.__path__ = []
top.RawKernel, top.empty, top.ndarray = RawKernel, np.empty, np.ndarray
top.core = types.ModuleType("cupy.core")
top.core._scalar = types.ModuleType("cupy.core._scalar")
top.core._scalar.get_typename = lambda d: {"float64": "double"}.get(
    np.dtype(d).name, "float")
top.cuda = types.ModuleType("cupy.cuda")
top.cuda.compiler = types.ModuleType("cupy.cuda.compiler")
top.cuda.compiler.CompileException = RuntimeError
for m in (top, top.core, top.core._scalar, top.cuda, top.cuda.compiler):
    sys.modules[m.__name__] = m
from africanus.rime.cuda.predict import predict_vis
x = np.ones((1, 3, 2, 4, 2), complex)
i = np.array([0, 0, 1, 1, 0], np.int32)
for ti in ([7, 8, 9, 9, 7], [9, 7, 8, 7, 9]):
    ti = np.array(ti, np.int32)
    predict_vis(ti, i, 1 - i, dde1_jones=x, dde2_jones=x)
    assert (seen[-1][0] == ti - 7).all(), seen[-1][0]
''', shim=True)
