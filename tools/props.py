"""The properties: source of properties.jsonl and MANIFEST.json"""


def P(id, title, statement, text, why, files, mech, over=("inputs",),
      note=""):
    return dict(id=id, title=title, statement=statement, text=text, why=why,
                files=files, mech=mech, over=list(over), note=note)


CONV = "africanus/model/coherency/conversion.py"
PRED = "africanus/rime/predict.py"

PROPS = [
    P("M01", "Stokes and correlation conversion follows the definitions",
      "Converting between Stokes parameters and linear or circular "
      "correlations gives the textbook linear combinations (XX=I+Q, XY=U+iV, "
      "YX=U-iV, YY=I-Q, RR=I+V, RL=Q+iU, LR=Q-iU, LL=I-V and their inverses "
      "with the factor one half) for every ordering, nesting and naming "
      "(string or CASA number) of inputs and outputs, so that Stokes -> "
      "correlations -> Stokes is the identity. Requests that cannot be "
      "satisfied from the given inputs, duplicate outputs and unknown names "
      "are refused with an error that says so. The dask version gives the "
      "same values under every chunking.",
      "all values, all input/output orders and nestings, names or ids, all "
      "chunkings",
      "the tests convert a handful of fixed schemas with random data; they "
      "do not cover the orders, nestings and partial input sets, nor all "
      "values", [CONV, "africanus/model/coherency/dask.py"],
      [("conversion table and index mapping", CONV),
       ("blockwise wrapper", "africanus/model/coherency/dask.py")],
      ("inputs", "configurations")),
    P("R01", "Predicted visibilities equal the measurement equation",
      "For every row and channel the prediction equals the sum over sources "
      "of the first antenna's direction dependent term times the source "
      "coherency times the conjugate transpose of the second antenna's "
      "term, plus any base visibilities, sandwiched between the two "
      "antennas' direction independent terms, where each antenna term is "
      "looked up by the row's time index and antenna index. This holds for "
      "scalar, two-vector and 2x2 correlations and for every combination "
      "of omitted terms; one-sided antenna terms and inconsistent "
      "correlation shapes are refused, and inputs are not modified.",
      "all complex values, all time/antenna index assignments, all "
      "combinations of present terms and correlation shapes",
      "the repository's tests for it sample random data for one geometry "
      "per combination (and do not run with the installed numba)",
      [PRED], [("code generated sum/combine functions", PRED),
               ("correlation case analysis", PRED)],
      ("inputs", "configurations")),
    P("R02", "Dask prediction equals the numpy prediction under any chunking",
      "For every chunking of sources and channels and every chunking of "
      "rows aligned with the time chunking, in each reduction mode, the dask "
      "prediction has the same shape, type and values as the direct "
      "prediction on the whole arrays, provided antennas are not chunked. "
      "Unsupported chunkings are refused instead of giving wrong numbers.",
      "all chunkings, stream modes and combinations of present terms",
      "tests use one chunking per combination",
      ["africanus/rime/dask_predict.py", "africanus/rime/dask.py"],
      [("graph construction", "africanus/rime/dask_predict.py")],
      ("inputs", "configurations")),
    P("R03", "Phase delay follows its definition and symmetries",
      "The phase term of a source for a baseline and frequency is "
      "exp(s 2 pi i (u l + v m + w (n-1)) nu / c) with n = sqrt(1-l^2-m^2), "
      "where s is +1 or -1 according to the chosen convention; it has unit "
      "modulus, is 1 at the phase centre, conjugates when the baseline or "
      "the convention is reversed and composes multiplicatively over "
      "baselines. Unknown conventions are refused; the dask version agrees "
      "for every chunking and the JAX version agrees too.",
      "all directions in the unit disc, all uvw and frequencies, both "
      "conventions, all chunkings",
      "tests sample random directions",
      ["africanus/rime/phase.py", "africanus/rime/dask.py",
       "africanus/rime/jax/phase.py"],
      [("phase kernel", "africanus/rime/phase.py")],
      ("inputs", "configurations")),
    P("R04", "Feed rotation and source transformation follow definitions",
      "Feed rotation of an angle p is the matrix ((cos p, sin p), (-sin p, "
      "cos p)) for linear feeds and diag(exp(-ip), exp(ip)) for circular "
      "feeds, hence unitary and additive in the angle. Transforming sources "
      "rotates each direction by the parallactic angle, adds the pointing "
      "error and applies the antenna scaling for every antenna, time and "
      "channel. The dask versions agree for every chunking.",
      "all angles, directions, pointing errors and scalings; all chunkings",
      "tests sample random values for one shape",
      ["africanus/rime/feeds.py", "africanus/rime/transform.py",
       "africanus/rime/dask.py"],
      [("rotation matrices", "africanus/rime/feeds.py"),
       ("source transformation", "africanus/rime/transform.py")],
      ("inputs", "configurations")),
    P("G01", "Wide-field gridding maps every band, flag and weight correctly",
      "Imaging visibilities produces for each band the image of exactly the "
      "channels assigned to that band, weighted by the weights, where the "
      "optional flag array selects (non-zero) the samples to process and "
      "all others contribute nothing; degridding fills every channel of a "
      "band from that band's image and gives zero at unselected samples; "
      "the residual is the image of data minus model and the Hessian the "
      "image of the model. Cell sizes, accuracy, w-stacking, double "
      "accumulation and thread options reach the transform as documented. "
      "Result types follow the input precision and inputs are not modified.",
      "every partition of the channels into bands, every flag pattern, any "
      "uvw, frequency, cell, weight and visibility values",
      "tests draw random data for a grid of fixed sizes, with bands of "
      "near-equal width, and mostly without flags",
      ["africanus/gridding/wgridder/im2vis.py",
       "africanus/gridding/wgridder/vis2im.py",
       "africanus/gridding/wgridder/im2residim.py",
       "africanus/gridding/wgridder/hessian.py"],
      [("band loop and weighting",
        "africanus/gridding/wgridder/vis2im.py")],
      ("inputs", "configurations"),
      "The external ducc0 transform is modelled by its definition (explicit "
      "sum) in the symbolic run and is the real library in replays."),
    P("G02", "Dask wide-field gridding equals the numpy version",
      "For every chunking of rows and of bands (with channels chunked to "
      "match) the dask degridder, gridder, residual and Hessian operators "
      "give the same values, shape and type as the direct call on the whole "
      "arrays with the same options.",
      "every row chunking and every band chunking, with and without "
      "weights and flags",
      "tests use a single chunk count per run and tolerate only equality on "
      "that one sample",
      ["africanus/gridding/wgridder/dask.py"],
      [("blockwise graph and row reduction",
        "africanus/gridding/wgridder/dask.py")],
      ("inputs", "configurations"),
      "ducc0 modelled by its definition in the symbolic run."),
    P("L01", "Kronecker products agree with the explicit product matrix",
      "The Kronecker matrix-vector and matrix-matrix routines, for square "
      "and rectangular factors, real or complex, equal multiplication by "
      "the explicit Kronecker product of the factors in the given order, "
      "for any number and size of factors; the Kronecker Cholesky factors "
      "are lower triangular with L L^T equal to each factor. No precision "
      "or imaginary part is lost and factors and inputs are not modified.",
      "all matrix entries, factor counts and shapes within bounds",
      "the tests multiply a few random factors of one shape",
      ["africanus/linalg/kronecker_tools.py"],
      [("axis reshuffling loops", "africanus/linalg/kronecker_tools.py")],
      ("inputs", "configurations")),
    P("H01", "Hogbom CLEAN conserves the dirty image and obeys its limits",
      "At every stop the residual equals the dirty image minus the clean "
      "components convolved with (shifted copies of) the beam; each "
      "iteration takes the gain times the current maximum of the residual "
      "and adds it to the component at that pixel; it stops as soon as the "
      "peak falls to the threshold and never exceeds the iteration limit. "
      "Defaults are gain 0.1, threshold 20 percent of the peak and three "
      "times the number of pixels of iterations. The dirty image and beam "
      "are not modified and a beam that is not twice the image size is "
      "refused. A restored image is the model convolved with the fitted "
      "unit-peak Gaussian plus the residuals, the fit seeing the central "
      "lobe of the beam.",
      "all images, beams, gains, thresholds and iteration limits in bounds",
      "no test of the repository checks the algorithm's invariant",
      ["africanus/deconv/hogbom/clean.py"],
      [("minor cycle", "africanus/deconv/hogbom/clean.py")],
      ("inputs", "histories")),
    P("L02", "Image regions contain, overlap, cut out and restore correctly",
      "For bounding boxes and convex hulls: a point is inside exactly when "
      "it is geometrically inside (edges included for boxes); two regions "
      "overlap exactly when they share area; masks, areas, edges and "
      "normals match the corners; a regional cut-out contains exactly the "
      "image values at its coordinates and the fill value elsewhere, for "
      "either axis order and any number of extra axes; splitting a box "
      "covers it without overlap and normalised masks sum to one on every "
      "covered pixel so that coadding the cut-outs restores the image; "
      "derived bounding boxes contain their hull. Negative coordinates are "
      "allowed throughout.",
      "all integer positions, all image values, all box sizes in bounds",
      "tests check a few concrete regions",
      ["africanus/linalg/geometry.py"],
      [("containment and separating axis tests",
        "africanus/linalg/geometry.py"),
       ("regional data", "africanus/linalg/geometry.py")],
      ("inputs", "configurations"),
      "scipy ConvexHull is modelled by gift wrapping in the symbolic run. "),
    P("S01", "Chunk aggregation, correlation shapes and types are exact",
      "Aggregating chunks preserves the order and total of every dimension, "
      "merges only whole neighbouring chunks, never exceeds the limit "
      "except for a single chunk that is itself too large, and never emits "
      "empty chunks; several dimensions are merged at the same places. "
      "Correlation shape is (n,) when flat and (1,), (2,) or (2,2) for one, "
      "two or four correlations as a matrix, anything else being refused; "
      "the inferred complex type is the smallest complex type that holds "
      "all the inputs. Inconsistent arguments are refused.",
      "all chunk sizes and limits, all combinations of element types",
      "tests use one or two literal chunkings",
      ["africanus/util/shapes.py", "africanus/util/type_inference.py"],
      [("greedy merge", "africanus/util/shapes.py")],
      ("inputs",)),
    P("S02", "Memoised functions and task progress never lose track",
      "A memoised function evaluates its target exactly once per distinct "
      "key and afterwards returns that very result, an evaluation that "
      "raised is made again, and threads asking at the same time share one "
      "evaluation, as they share the one instance of a singleton class. In "
      "every interleaving "
      "of task starts and finishes the progress bar's per-kind counts of "
      "running, finished and total tasks and summed durations are correct, "
      "and a refresh of the display survives the computation ending under "
      "it; the estimated total is the sum over kinds of mean duration times "
      "number of tasks, scaled by elapsed over summed time, and stays until "
      "another task completes; elapsed times are printed as their leading two non-zero units.",
      "all call histories and interleavings in bounds, all times",
      "tests drive one linear history",
      ["africanus/util/code.py", "africanus/util/dask_util.py"],
      [("memoisation cache", "africanus/util/code.py"),
       ("task records", "africanus/util/dask_util.py")],
      ("histories", "schedules")),
    P("G03", "Estimated cell size samples the longest baseline",
      "The estimated cell size in each direction is, in arc seconds, one "
      "over twice the factor times the longest absolute baseline divided by "
      "the smallest wavelength, for scalars or arrays in any order, factor "
      "3 by default; a grid whose field is smaller than the shortest "
      "wavelength over the shortest absolute baseline is refused "
      "with an error naming the axis, and otherwise accepted.",
      "all baselines, wavelengths, factors and grid sizes",
      "tests evaluate one random example",
      ["africanus/gridding/util.py"],
      [("cell size estimate", "africanus/gridding/util.py")],
      ("inputs",)),
    P("U01", "Functions with missing optional packages fail clearly",
      "A function declared to need optional packages is returned untouched "
      "when all of them import; otherwise it keeps its name, never runs, "
      "and a call raises MissingPackageException (or skips, inside a test "
      "run and unless forced) naming the function, each missing package and "
      "no other, and any import errors passed along. Import errors passed "
      "along although every package imports are raised at once; anything "
      "but names, import errors and None is refused.",
      "every list of requirements within bounds",
      "tests use one list with a missing package and one with an error",
      ["africanus/util/requirements.py", "africanus/util/testing.py"],
      [("decorator", "africanus/util/requirements.py")],
      ("configurations",)),
    P("U02", "Assignment strings evaluate to their literals, nothing else",
      "Parsing a string of semicolon separated assignments yields each "
      "assigned name with the value Python gives the literal (or slice "
      "call), later assignments winning, through chained, tuple and list "
      "targets; an empty string gives no names. Anything else - other "
      "calls, names, expressions, other statements, unpacking of the wrong "
      "length, other targets - is refused and nothing is executed.",
      "every statement sequence within bounds",
      "no test covers it",
      ["africanus/util/cmdline.py"],
      [("parser", "africanus/util/cmdline.py")],
      ("inputs",)),
    P("U03", "GPU launch grids and register transpositions are exact",
      "The launch grid has at least one thread per element and no idle "
      "block in each of three dimensions, other ranks being refused; number "
      "types and functions map to the C name of the same precision, unknown "
      "ones being refused; assigning along the register cycles with one "
      "temporary rotates any register contents by the requested amount, and "
      "the warp transposition macro generates code that transposes the "
      "registers of each group of threads.",
      "all sizes, rotations and register contents within bounds",
      "tests of this need a GPU",
      ["africanus/util/cuda.py", "africanus/util/jinja2.py",
       "africanus/rime/cuda/macros.j2"],
      [("launch grids", "africanus/util/cuda.py"),
       ("assignment cycles", "africanus/util/jinja2.py"),
       ("transposition macro", "africanus/rime/cuda/macros.j2")],
      ("inputs", "configurations")),
    P("G07", "Dask nifty gridding equals gridding all rows at once",
      "For any row and correlation chunks and any number of streams (or "
      "none) the nifty grid of each correlation is that of all its "
      "unflagged visibilities within the w limits, weighted, gridded at "
      "once; degridding, the dirty image and the model grid likewise equal "
      "the direct calls per correlation. The configuration is passed on and "
      "survives pickling, inputs are left untouched, reported shapes are "
      "those of the results and channel chunks are refused.",
      "all values, flags, limits, chunks and stream numbers within bounds",
      "the tests need nifty_gridder and compare shapes, or one random case",
      ["africanus/gridding/nifty/dask.py"],
      [("stream reduction", "africanus/gridding/nifty/dask.py"),
       ("chunk wrappers", "africanus/gridding/nifty/dask.py")],
      ("inputs", "configurations"),
      note="nifty_gridder (compiled, not installed) is replaced, in the "
      "replay too, by a linear gridder with made-up kernels. "),
    P("U04", "Only genuine GPU headers are ever installed",
      "Asking for the cub or trove headers returns a directory holding "
      "exactly the contents of the archive with the published SHA-1: a "
      "current installation is used as it is, an archive on disk whose hash "
      "matches is not downloaded again, and any other archive is. A "
      "download with another hash is refused with the installer's exception "
      "telling both hashes, before an existing installation is removed; "
      "failing extraction is reported by the same exception and leaves no "
      "temporary files. After any failure, or a crash at any step, asking "
      "again succeeds once the fault is gone, and threads asking at the "
      "same time install once.",
      "all earlier disk states, downloads and single fault or crash points "
      "within bounds",
      "the tests need the network and reach the successful case only",
      ["africanus/util/cub.py", "africanus/util/trove.py",
       "africanus/util/files.py", "africanus/util/appdirs.py"],
      [("cub installer", "africanus/util/cub.py"),
       ("trove installer", "africanus/util/trove.py"),
       ("file hash", "africanus/util/files.py")],
      ("fault_sequences", "crash_points", "schedules")),
    P("R09", "Parallactic angles use each time's and antenna's own frame",
      "The parallactic angle at a time and antenna is the position angle, in "
      "the azimuth-elevation frame of that time and that antenna's position, "
      "of the north pole as seen from the phase direction; results are laid "
      "out time by antenna, do not depend on earlier calls or on other "
      "threads using the shared measures server, and the dask version agrees "
      "for every chunking. Unknown backends are refused.",
      "all times, positions and directions within bounds, two threads "
      "interleaved at every measures call",
      "tests compare backends loosely at a few times and need casacore",
      ["africanus/rime/parangles.py", "africanus/rime/parangles_casa.py",
       "africanus/rime/dask.py"],
      [("casa backend", "africanus/rime/parangles_casa.py"),
       ("backend choice", "africanus/rime/parangles.py")],
      ("inputs", "schedules"),
      "python-casacore is replaced by a stand-in measures server; the "
      "astropy backend is not covered"),
    P("R10", "GPU kernels compute what the CPU functions are defined to",
      "The CUDA versions of phase delay, feed rotation, visibility "
      "prediction, beam cube interpolation and Stokes conversion return the "
      "values, shape and kind of the CPU versions for every combination of "
      "terms, correlation layout, precision and size, also beyond one "
      "thread block; they never read or write outside an array, use a value "
      "that was not loaded, or depend on the order in which warps run. "
      "Unsupported inputs are refused.",
      "all values of the inputs; sizes around the edges of warps and thread "
      "blocks; all warp orders",
      "the tests need a GPU and sample one size",
      ["africanus/rime/cuda/phase.py", "africanus/rime/cuda/phase.cu.j2",
       "africanus/rime/cuda/feeds.py", "africanus/rime/cuda/feeds.cu.j2",
       "africanus/rime/cuda/predict.py", "africanus/rime/cuda/predict.cu.j2",
       "africanus/rime/cuda/beam.py", "africanus/rime/cuda/beam.cu.j2",
       "africanus/rime/cuda/beam_freq_interp.cu.j2",
       "africanus/rime/cuda/macros.j2",
       "africanus/model/coherency/cuda/conversion.py",
       "africanus/model/coherency/cuda/conversion.cu.j2"],
      [("prediction kernel", "africanus/rime/cuda/predict.cu.j2"),
       ("beam kernel", "africanus/rime/cuda/beam.cu.j2"),
       ("warp transpose", "africanus/rime/cuda/macros.j2")],
      ("inputs", "schedules", "configurations"),
      "no GPU here: the rendered CUDA C is executed by the machine in "
      "checks/cudasim.py, also for replays; contiguous inputs"),
    P("P01", "Gaussian process distances and covariances are exact",
      "The distance matrix holds the Euclidean distance for each pair of "
      "points (flat vectors count as one dimensional); the squared "
      "exponential covariance is sigma^2 exp(-d^2/(2 l^2)), hence sigma^2 "
      "on the diagonal and symmetric; inputs of different dimension are "
      "refused; the power spectrum is the Fourier transform of the "
      "covariance at the FFT frequencies in increasing order, refused for "
      "anything but "
      "regularly spaced one dimensional identical inputs.",
      "all points, variances and length scales within bounds",
      "tests evaluate one random example",
      ["africanus/gps/utils.py", "africanus/gps/kernels.py"],
      [("pairwise distances", "africanus/gps/utils.py")],
      ("inputs",)),
    P("B01", "Beam cube headers and file names are interpreted exactly",
      "The l, m and frequency grids of a beam cube follow the FITS axis "
      "formula (reference value + increment * (pixel - reference pixel), "
      "one-based, value defaulting to 0 and increment to 1) whatever the "
      "order, naming and length of axes and however many other axes there "
      "are; degrees become radians, the sign option of an axis reverses it, and explicit frequency keys taking "
      "precedence; headers lacking an axis are refused. File name schemas "
      "expand to exactly one real/imaginary pair per requested "
      "correlation in order; unknown ids or placeholders are refused.",
      "all header values, axis orders, namings, correlation lists in bounds",
      "tests use one header and one schema per polarisation type",
      ["africanus/util/beams.py"],
      [("axis metadata", "africanus/util/beams.py"),
       ("file name expansion", "africanus/util/beams.py")],
      ("inputs", "configurations")),
    P("D01", "Direct Fourier transforms are exact and adjoint",
      "Image to visibility is, for every row, channel and correlation, the "
      "sum over sources of the image value times exp(s 2 pi i (u l + v m + w "
      "(n-1)) nu / c) with s set by the convention; visibility to image is "
      "the real part of the sum over unflagged samples with the opposite "
      "sign, so the two are adjoint. A sample flagged in a correlation "
      "never contributes to it. Unknown conventions are refused, result "
      "types follow the inputs, inputs are not modified. The dask versions "
      "give the same values under every supported chunking and refuse "
      "others.",
      "all image and visibility values, coordinates, frequencies, flag "
      "patterns, conventions and chunkings within bounds",
      "the tests compare against a few analytic examples",
      ["africanus/dft/kernels.py", "africanus/dft/dask.py"],
      [("direct transforms", "africanus/dft/kernels.py"),
       ("blockwise wrappers", "africanus/dft/dask.py")],
      ("inputs", "configurations")),
    P("M02", "Spectral models follow their polynomial in the chosen base",
      "The model flux of a source at a frequency is the reference flux "
      "extended by the spectral polynomial: product of (nu/nu0)^alpha_i "
      "powers for the standard base, exp/10^ of the polynomial in log or "
      "log10 of nu/nu0 for the logarithmic bases, each polarisation using "
      "its own base from a list, so that it equals the given flux at the "
      "reference frequency, in the compiled and the plain numpy version. "
      "Bases may be given by name or number; unknown "
      "bases and mismatched polarisations are refused. The dask version "
      "equals it under every chunking and refuses chunked spectral terms.",
      "all fluxes, spectral terms, frequencies, bases and chunkings in "
      "bounds",
      "tests sample random data (and do not run with the installed numba)",
      ["africanus/model/spectral/spec_model.py",
       "africanus/model/spectral/dask.py"],
      [("spectral polynomials", "africanus/model/spectral/spec_model.py"),
       ("blockwise wrapper", "africanus/model/spectral/dask.py")],
      ("inputs", "configurations")),
    P("M03", "Gaussian shapes are the Fourier transform of the source",
      "A Gaussian source with major axis, minor axis and position angle has "
      "uv response exp(-(u1^2+v1^2)) with (u1, v1) the rotated and scaled "
      "baseline in wavelengths; it is 1 at the origin and for point-like "
      "extents, even in uv and independent of w. The dask version equals it "
      "under every chunking.",
      "all shapes, baselines, frequencies and chunkings in bounds",
      "tests compare with one example (and do not run with the installed "
      "numba)",
      ["africanus/model/shape/gaussian_shape.py",
       "africanus/model/shape/dask.py"],
      [("uv response", "africanus/model/shape/gaussian_shape.py")],
      ("inputs", "configurations")),
    P("M04", "WSClean component lists are parsed exactly",
      "Every component of a WSClean list is returned once, in order, with "
      "each column under its own name whatever the column order: positions "
      "converted from sexagesimal to radians with the sign applied to the "
      "whole angle (also for -0 degrees), default values for omitted "
      "entries, coefficient lists and log flags parsed as written; "
      "malformed rows and files are refused.",
      "all numeric values, column orders, defaults and row counts in bounds",
      "tests parse one hand written file",
      ["africanus/model/wsclean/file_model.py"],
      [("line and column parser", "africanus/model/wsclean/file_model.py")],
      ("inputs", "configurations")),
    P("M05", "Spectral index fits are Gauss-Newton and exact on exact data",
      "Fitting spectral indices to components: data that follows the power "
      "law exactly is fitted exactly with zero variance, with or without a "
      "primary beam; each iteration is the weighted Gauss-Newton step and "
      "the variances are the inverse Hessian diagonal times the reduced "
      "chi squared; documented starting values apply when none are given. "
      "Components are independent: the dask version equals the direct fit "
      "for every chunking of components and refuses chunked channels.",
      "all data, weights, beams and start values within bounds",
      "tests fit one random data set",
      ["africanus/model/spi/component_spi.py", "africanus/model/spi/dask.py"],
      [("Gauss-Newton loop", "africanus/model/spi/component_spi.py"),
       ("blockwise wrapper", "africanus/model/spi/dask.py")],
      ("inputs", "configurations")),
    P("R07", "WSClean spectra follow ordinary or logarithmic polynomials",
      "The spectrum of a WSClean component is I + sum_j c_j (nu/nu0 - 1)^j+1 "
      "for ordinary and exp of the analogous polynomial in log(nu/nu0) for "
      "logarithmic coefficients, with coefficients of any sign, chosen per "
      "source or for all, in the compiled and the plain numpy versions; "
      "inconsistent lengths are refused. The dask version "
      "equals it under every chunking and refuses chunked coefficients.",
      "all intensities, coefficients, frequencies, flags and chunkings in "
      "bounds",
      "tests sample random data",
      ["africanus/model/wsclean/spec_model.py",
       "africanus/model/wsclean/dask.py"],
      [("polynomials", "africanus/model/wsclean/spec_model.py"),
       ("blockwise wrapper", "africanus/model/wsclean/dask.py")],
      ("inputs", "configurations")),
    P("R05", "Beam cubes are interpolated, scaled and rotated as documented",
      "The primary beam at a source is obtained by scaling (l, m) with the "
      "antenna scaling, rotating by the parallactic angle, adding the "
      "pointing error and interpolating the beam cube linearly in l, m and "
      "frequency: cube vertices are reproduced exactly, amplitude and "
      "phase are interpolated separately, points outside the l, m extents "
      "are clamped to the border, and frequencies outside the cube scale the "
      "coordinates by the ratio to the nearest cube frequency. Thin cubes "
      "are refused. The dask version equals it under every chunking of "
      "sources, times, antennas and channels and refuses chunked cubes.",
      "all beam values, extents, positions, angles, scalings, pointing "
      "errors and frequencies within bounds",
      "tests sample a few random cubes",
      ["africanus/rime/fast_beam_cubes.py", "africanus/rime/dask.py"],
      [("interpolation", "africanus/rime/fast_beam_cubes.py"),
       ("blockwise wrapper", "africanus/rime/dask.py")],
      ("inputs", "configurations")),
    P("R06", "Zernike beams are sums of Noll indexed polynomials",
      "The Zernike direction dependent effect at (l, m) is the sum over "
      "polynomials of coefficient times the polynomial named by its Noll "
      "index at radius sqrt(l^2+m^2) and angle atan2(l, m), zero outside the "
      "unit disc, separately per antenna, channel and correlation with any "
      "number of correlation axes (also none). The dask version equals it "
      "under every chunking and refuses chunked polynomials.",
      "all coefficients and coordinates, Noll indices and shapes in bounds",
      "tests compare a fixed beam",
      ["africanus/rime/zernike.py", "africanus/rime/dask.py"],
      [("radial polynomials and sum", "africanus/rime/zernike.py"),
       ("blockwise wrapper", "africanus/rime/dask.py")],
      ("inputs", "configurations")),
    P("R08", "WSClean prediction sums point and gaussian components",
      "Predicting from WSClean components gives, per row and channel, the "
      "sum over sources of its spectrum times the fourier phase of its "
      "position, times the gaussian uv response for GAUSSIAN and one for "
      "POINT sources; unknown types are refused. The dask version gives the "
      "same sum under every chunking of sources, rows and channels and "
      "refuses chunked spectral coefficients.",
      "all component parameters, uvw, frequencies and chunkings in bounds",
      "tests sample random components",
      ["africanus/rime/wsclean_predict.py",
       "africanus/rime/dask_predict.py"],
      [("sum over sources", "africanus/rime/wsclean_predict.py"),
       ("blockwise sum", "africanus/rime/dask_predict.py")],
      ("inputs", "configurations")),
    P("C01", "Sky coordinates and direction cosines convert both ways",
      "radec to lm and lmn follows l = cos d sin da, m = sin d cos d0 - "
      "cos d sin d0 cos da, n = sqrt(1-l^2-m^2) about any phase centre "
      "(zero when omitted), per source; converting back returns the same "
      "declination and right ascension (modulo a turn) for every source in "
      "the hemisphere of the phase centre, also beyond the pole. Arrays of "
      "the wrong shape are refused, and the dask versions agree under every "
      "chunking of sources.",
      "all positions and phase centres, by symbolic trigonometric identities",
      "tests sample random positions near the phase centre",
      ["africanus/coordinates/coordinates.py",
       "africanus/coordinates/dask.py"],
      [("conversions", "africanus/coordinates/coordinates.py"),
       ("blockwise wrappers", "africanus/coordinates/dask.py")],
      ("inputs", "configurations")),
    P("A01", "Averaging bins rows per baseline and channels in order",
      "Rows are averaged per baseline in order of time: a bin starts half an "
      "interval before its first sample and takes every following sample "
      "that ends within time_bin_secs of that start. All rows of a bin map "
      "to one output row, distinct bins to distinct rows and none is lost; "
      "output rows are in order of time and carry the mean time and summed "
      "interval of all samples, and are flagged exactly when all of them "
      "are. Repeated (time, baseline) samples are refused. Channel c maps "
      "to bin c // chan_bin_size.",
      "all times, intervals, bin lengths, flags and baseline assignments",
      "tests use one fixed set of ten rows",
      ["africanus/averaging/time_and_channel_mapping.py",
       "africanus/averaging/support.py"],
      [("row and channel mapping",
        "africanus/averaging/time_and_channel_mapping.py"),
       ("unique times and baselines", "africanus/averaging/support.py")],
      ("inputs", "configurations")),
    P("A02", "Averaged columns are means and sums of the samples that count",
      "Only unflagged samples of a bin count, or all of them when none is "
      "unflagged (and then the output is flagged). Over these, uvw, time "
      "centroid and frequency are means, exposure, weight, channel width, "
      "effective bandwidth and resolution sums, visibilities means weighted "
      "by weight spectrum, else weight, else equally, and sigma is "
      "sqrt(sum(sigma^2 w^2))/sum(w); absent columns stay absent. Row flags "
      "that contradict the flags and columns of different sizes are refused.",
      "all column values, flags, bin structures and column subsets in bounds",
      "tests average one fixed data set with random flags",
      ["africanus/averaging/time_and_channel_avg.py"],
      [("row, channel and visibility averages",
        "africanus/averaging/time_and_channel_avg.py")],
      ("inputs", "configurations")),
    P("A03", "Dask averaging equals direct averaging of each chunk",
      "Averaging dask arrays gives, for every chunking of rows, channels and "
      "correlations and any subset of columns, the concatenation of the "
      "direct averages of each row and channel chunk, with row flags decided "
      "over all channels, and reports the resulting dtypes and channel "
      "chunks.",
      "all chunkings, column subsets and values within bounds",
      "tests compute one chunking",
      ["africanus/averaging/dask.py"],
      [("graph construction", "africanus/averaging/dask.py")],
      ("inputs", "configurations")),
    P("K01", "Gains corrupt, subtract from and correct visibilities exactly",
      "With the gains of each row's time bin, antennas, channel and "
      "direction: corrupting sums G_p M G_q^H over directions, residuals are "
      "the data minus that sum, correcting solves G_p C G_q^H = V, and "
      "computing from a sky model uses the fourier phase of the source "
      "positions divided by n; for scalar, diagonal and full gains. Cells "
      "with any flagged correlation are zero in residual and corrected data. "
      "Time bins may start at any row index and inputs are left alone; "
      "incompatible shapes and several directions to correct are refused.",
      "all gains, data, models, flags, antenna pairs and bin structures",
      "tests sample random data for a few shapes",
      ["africanus/calibration/utils/corrupt_vis.py",
       "africanus/calibration/utils/residual_vis.py",
       "africanus/calibration/utils/correct_vis.py",
       "africanus/calibration/utils/compute_and_corrupt_vis.py",
       "africanus/calibration/utils/utils.py"],
      [("matrix products", "africanus/calibration/utils/corrupt_vis.py"),
       ("matrix inverses", "africanus/calibration/utils/correct_vis.py")],
      ("inputs", "configurations")),
    P("K02", "Phase calibration takes weighted Gauss-Newton steps",
      "The Hessian diagonal and projected residual are the sums over the "
      "unflagged data of each gain of |J|^2 and conj(J) r with J the "
      "derivative by its phase; each iteration turns the gains by half the "
      "ratio of the weighted sums, stops when no phase moves by more than "
      "tol or after maxiter, and leaves exact gains and gains without data "
      "unchanged. Weights may lack the channel axis; inputs are left alone.",
      "all phases, data, models, weights and flags within bounds",
      "tests calibrate one simulation",
      ["africanus/calibration/phase_only/phase_only.py"],
      [("gauss_newton, compute_jhj, compute_jhr",
        "africanus/calibration/phase_only/phase_only.py")],
      ("inputs", "configurations")),
    P("K03", "Dask calibration equals the direct version per chunk",
      "Corrupting, subtracting, correcting and computing visibilities and "
      "the phase-only Hessian and projected residual of dask arrays give the "
      "direct result with true chunks and dtype for every aligned chunking "
      "of times, rows and channels; gains chunked over antennas or "
      "directions and chunked coordinate components are refused.",
      "all chunkings and values within bounds",
      "tests compute one chunking",
      ["africanus/calibration/utils/dask.py",
       "africanus/calibration/phase_only/dask.py"],
      [("blockwise wrappers", "africanus/calibration/utils/dask.py")],
      ("inputs", "configurations")),
    P("G04", "Facet gridding and degridding follow the facet geometry",
      "Facet gridding spreads each sample over the cells around it with the "
      "kernel value at the cell distance quantised by the oversampling, into "
      "its channel's band, after turning the sample's phase to the facet "
      "centre and rotating (or planar-correcting) its baseline to the facet; "
      "degridding gathers with the same taps at the same place, normalised "
      "by the taps inside the grid, and applies the opposite phase. Packed "
      "and unpacked kernels and serial and parallel versions agree; taps "
      "outside the grid are dropped; Stokes policies follow the definitions. "
      "Inputs are left alone; inconsistent inputs and unknown policies are "
      "refused.",
      "all sample positions, kernel values, data, centres and band maps",
      "tests compare one simulated sky with loose tolerances",
      ["africanus/gridding/perleypolyhedron/gridder.py",
       "africanus/gridding/perleypolyhedron/degridder.py",
       "africanus/gridding/perleypolyhedron/policies/"
       "baseline_transform_policies.py",
       "africanus/gridding/perleypolyhedron/policies/"
       "phase_transform_policies.py",
       "africanus/gridding/perleypolyhedron/policies/"
       "convolution_policies.py",
       "africanus/gridding/perleypolyhedron/policies/"
       "stokes_conversion_policies.py"],
      [("gridding", "africanus/gridding/perleypolyhedron/gridder.py"),
       ("degridding", "africanus/gridding/perleypolyhedron/degridder.py")],
      ("inputs", "configurations")),
    P("G05", "Facet kernels pack, unpack and detaper consistently",
      "Kernel samples lie at i/oversample - (W+2)//2; packing reorders them "
      "phase by phase and unpacking is its exact inverse; sinc, hanning and "
      "Kaiser-Bessel kernels are the windowed sinc normalised to unit sum; detapering "
      "returns the modulus of the kernel's Fourier transform at every pixel, "
      "by FFT or by sums, the separable version that of the outer product of the kernel. Even "
      "widths are refused.",
      "all kernel values; widths, oversamplings and image sizes in bounds",
      "tests compare one kernel",
      ["africanus/gridding/perleypolyhedron/kernels.py"],
      [("kernels", "africanus/gridding/perleypolyhedron/kernels.py")],
      ("inputs", "configurations")),
    P("G06", "Dask facet gridding equals direct gridding of each facet",
      "For every chunking of rows, channels, correlations, facets, bands and "
      "pixels the dask facet degridder gives the sum over facets of the "
      "direct degridding of each facet at its own centre, and the dask "
      "gridder the direct grid of each facet (normalised grids are averaged "
      "over row chunks), with true shape and type, serial or row parallel; "
      "mismatched chunks and facet counts are refused.",
      "all chunkings and values within bounds",
      "tests use one facet and one chunk",
      ["africanus/gridding/perleypolyhedron/dask.py"],
      [("graph construction", "africanus/gridding/perleypolyhedron/dask.py")],
      ("inputs", "configurations")),
]

NA = []
