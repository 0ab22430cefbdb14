"""L02 image regions: hulls, boxes, masks, cut-outs and stitching."""
import numpy as np
from engine.harness import scenario
from .common import keepall

R = 40


def pts(b, tag, n, r=R):
    return [[b.symint("%s%d_x" % (tag, i), -r, r),
             b.symint("%s%d_y" % (tag, i), -r, r)] for i in range(n)]


def cross(o, a, c):
    return (a[0] - o[0]) * (c[1] - o[1]) - (a[1] - o[1]) * (c[0] - o[0])


def box(b, m, tag, r=R, **kw):
    """a box with symbolic integer limits, at least 2 pixels a side"""
    xl, xu = b.symint(tag + "xl", -r, r), b.symint(tag + "xu", -r, r)
    yl, yu = b.symint(tag + "yl", -r, r), b.symint(tag + "yu", -r, r)
    b.assume(b.all(xl < xu, yl < yu))
    return (xl, xu, yl, yu), m.BoundingBox(xl, xu, yl, yu, mask=[], **kw)


TRI = [[(0, 0), (4, 0), (0, 3)], [(0, 0), (5, 2), (1, 6)],
       [(0, 0), (0, 7), (2, 3)], [(3, 0), (0, 1), (6, 5)],
       [(0, 0), (9, 1), (4, -5)]]


def tri(b, tag, r=R):
    """one of five triangles at any integer position"""
    ox, oy = b.symint(tag + "x", -r, r), b.symint(tag + "y", -r, r)
    return [[ox + x, oy + y] for x, y in b.pick(tag, TRI)]


def sized(b, m, tag, r=R):
    """a box of one of four sizes at any integer position"""
    w, h = b.pick(tag + "wh", [(1, 1), (7, 1), (2, 9), (3, 4)])
    xl, yl = b.symint(tag + "xl", -r, r), b.symint(tag + "yl", -r, r)
    return (xl, xl + w, yl, yl + h), m.BoundingBox(xl, xl + w, yl, yl + h,
                                                   mask=[])


@scenario("L02", "triangle_contains", bounds="five triangles at any integer "
          "position in [-40,40], any integer point")
def s1(b):
    m = b.mod("africanus.linalg.geometry")
    t = tri(b, "t")
    p = [b.symint("px", -R, R), b.symint("py", -R, R)]
    h = m.BoundingConvexHull(t, mask=[])
    got = p in h
    c = [cross(t[i], t[(i + 1) % 3], p) for i in range(3)]
    want = b.any(b.all(*[x >= 0 for x in c]), b.all(*[x <= 0 for x in c]))
    b.true("inside iff all orientations agree",
           want if got else b.implies(want, False))


@scenario("L02", "box_contains", bounds="any box and point in [-40,40]")
def s2(b):
    m = b.mod("africanus.linalg.geometry")
    (xl, xu, yl, yu), bx = box(b, m, "b")
    p = [b.symint("px", -R, R), b.symint("py", -R, R)]
    got = p in bx
    want = b.all(p[0] >= xl, p[0] <= xu, p[1] >= yl, p[1] <= yu)
    b.true("inside iff within limits",
           want if got else b.implies(want, False))
    nx, ny = bx.box_npx
    b.eq("npx", b.farr([nx, ny], "float64"),
         b.farr([xu - xl + 1, yu - yl + 1], "float64"))


@scenario("L02", "box_measures", bounds="any box in [-40,40]: area counts "
          "pixels, edges close, normals perpendicular and outward/inward")
def s3(b):
    m = b.mod("africanus.linalg.geometry")
    (xl, xu, yl, yu), bx = box(b, m, "b")
    nx, ny = xu - xl + 1, yu - yl + 1
    b.eq("area counts pixels", bx.area, nx * ny)
    b.eq("circumference", bx.circumference, 2 * nx + 2 * ny)
    e = bx.edges
    b.same("4 edges", e.shape, (4, 2, 2))
    ln, rn = bx.lnormals, bx.rnormals
    mid = bx.edge_midpoints
    cx2, cy2 = xl + xu, yl + yu
    for i in range(4):
        b.eq("closed", e[i, 1], e[(i + 1) % 4, 0])
        d = e[i, 1] - e[i, 0]
        b.eq("normal is perpendicular", d[0] * ln[i, 0] + d[1] * ln[i, 1], 0)
        b.eq("left = -right", ln[i], -rn[i])
        b.eq("midpoint", mid[i] * 2, e[i, 0] + e[i, 1])
        inner = rn[i, 0] * (cx2 - 2 * mid[i, 0]) + \
            rn[i, 1] * (cy2 - 2 * mid[i, 1])
        b.true("right normals point inwards", inner > 0)


@scenario("L02", "triangle_area", bounds="any triangle in [-40,40]: shoelace "
          "area plus half the boundary length minus one; clockwise corners")
def s3b(b):
    m = b.mod("africanus.linalg.geometry")
    t = pts(b, "t", 3)
    area = cross(*t)
    b.assume(b.any(area > 0, area < 0))
    h = m.BoundingConvexHull(t, mask=[])
    c = h.corners
    b.same("corners", c.shape, (3, 2))
    b.true("clockwise", cross(c[0], c[1], c[2]) < 0)
    a2 = area if b.known_true(area > 0) else -area
    b.eq("area", h.area, a2 * b.q(1, 2) + h.circumference * b.q(1, 2) - 1)


@scenario("L02", "boxes_overlap", bounds="two boxes of four sizes each at "
          "any integer positions in [-40,40]")
def s4(b):
    m = b.mod("africanus.linalg.geometry")
    (axl, axu, ayl, ayu), A = sized(b, m, "a")
    (bxl, bxu, byl, byu), B = sized(b, m, "b")
    got = A.overlaps_with(B)
    want = b.all(axl <= bxu, bxl <= axu, ayl <= byu, byl <= ayu)
    b.true("overlap iff they share a pixel",
           want if got else b.implies(want, False))


@scenario("L02", "triangle_box_overlap", bounds="three triangles and boxes "
          "of four sizes at any relative integer position: true when a corner "
          "lies in the other region, false when an axis separates them")
def s5(b):
    m = b.mod("africanus.linalg.geometry")
    t = [list(p) for p in b.pick("t", TRI[:3])]
    (xl, xu, yl, yu), B = sized(b, m, "b", 15)
    A = m.BoundingConvexHull(t, mask=[])
    if b.bool("swap"):
        got = B.overlaps_with(A)
    else:
        got = A.overlaps_with(B)
    inside = b.any(*[b.all(x >= xl, x <= xu, y >= yl, y <= yu)
                     for x, y in t])
    xs, ys = [p[0] for p in t], [p[1] for p in t]
    sep = b.any(xl > max(xs), xu < min(xs), yl > max(ys), yu < min(ys))
    b.true("shared pixel overlaps", got or b.implies(inside, False))
    b.true("separated along an image axis",
           (not got) or b.implies(sep, False))


def weights(b, m, hull):
    """{(y, x): weight} from the public filled mask"""
    c = hull.corners
    x0, y0 = int(np.min(c[:, 0])), int(np.min(c[:, 1]))
    f = hull.mask
    return {(y0 + i, x0 + j): f[i, j] for i in range(f.shape[0])
            for j in range(f.shape[1])}


@scenario("L02", "masks", bounds="triangles and boxes with corners chosen in "
          "a 5x5 neighbourhood incl. negative coordinates; user masks of any "
          "subset of 3 pixels")
def s6(b):
    m = b.mod("africanus.linalg.geometry")
    ox, oy = b.pick("o", [(0, 0), (-3, -2), (2, -1), (-1, 3)])
    t = [[ox, oy], [ox + b.int("dx", 1, 3), oy + b.int("dy", 0, 2)],
         [ox + b.int("ex", 0, 2), oy + 3]]
    if cross(*t) == 0:
        b.true("degenerate, not claimed", True)
        return
    h = m.BoundingConvexHull(t)
    w = weights(b, m, h)
    s = 1 if cross(*t) > 0 else -1
    inside = set()
    for y in range(oy, oy + 4):
        for x in range(ox, ox + 4):
            if all(s * cross(t[i], t[(i + 1) % 3], (x, y)) >= 0
                   for i in range(3)):
                inside.add((y, x))
    b.same("sparse mask lists exactly the pixels inside",
           sorted((int(y), int(x)) for y, x in h.sparse_mask),
           sorted(inside))
    b.same("filled mask", sorted(k for k, v in w.items() if v == 1),
           sorted(inside))
    # user supplied masks replace the old one, clipped to the region
    use = [p for k, p in enumerate(
        [(oy, ox), (oy + 1, ox + 1), (oy + 9, ox)]) if b.bool("u%d" % k)]
    h.sparse_mask = use
    w = weights(b, m, h)
    b.same("new mask is served", sorted(k for k, v in w.items() if v == 1),
           sorted(set(use) & inside))


@scenario("L02", "regional_data", bounds="3x4 image with 2 planes of any "
          "values, every box in [-2,5]^2 of 2..4 pixels a side at least "
          "partly inside, any fill value, axes in either order")
def s7(b):
    m = b.mod("africanus.linalg.geometry")
    ny, nx = 3, 4
    xl, yl = b.int("xl", -2, 3), b.int("yl", -2, 2)
    w, hh = b.pick("wh", [(2, 2), (4, 3), (3, 6), (8, 2)])
    xu, yu = xl + w - 1, yl + hh - 1
    cube = b.reals("cube", (2, 1, ny, nx))
    oob = b.real("oob")
    bx = m.BoundingBox(xl, xu, yl, yu)
    ok = keepall(b, cube=cube)
    full = b.bool("masked")
    drop = (yl, xl + 1)
    if full:
        bx.sparse_mask = [(y, x) for y in range(yl, yu + 1)
                          for x in range(xl, xu + 1) if (y, x) != drop]

    def run():
        return m.BoundingConvexHull.regional_data(
            bx, cube, axes=b.pick("axes", [(2, 3), (3, 2)]), oob_value=oob)
    if xu < 0 or yu < 0 or xl >= nx or yl >= ny:
        b.raises("outside the image", ValueError, run)
        return
    d, ext = run()
    b.same("extents", [int(v) for v in ext], [xl, xu, yl, yu])
    b.same("shape", d.shape, (2, 1, hh, w))
    for k in range(2):
        want = b.farr([[cube[k, 0, y, x] if 0 <= y < ny and 0 <= x < nx and
                        not (full and (y, x) == drop) else oob
                        for x in range(xl, xu + 1)]
                       for y in range(yl, yu + 1)], "float64")
        b.eq("plane", d[k, 0], want)
    ok()


@scenario("L02", "outside", bounds="boxes placed on either side of a 3x4 "
          "image")
def s7b(b):
    m = b.mod("africanus.linalg.geometry")
    cube = b.reals("cube", (3, 4))
    xl, yl = b.pick("at", [(4, 0), (0, 3), (-3, 0), (0, -3), (3, 2), (-2, 0),
                           (0, -2), (3, 0), (0, 2)])
    bx = m.BoundingBox(xl, xl + 1, yl, yl + 1)

    def run():
        return m.BoundingConvexHull.regional_data(bx, cube, axes=(0, 1))
    if xl + 1 < 0 or yl + 1 < 0 or xl >= 4 or yl >= 3:
        b.raises("outside", ValueError, run)
        return
    d, _ = run()
    b.eq("cut-out", d, b.farr([[cube[y, x] if 0 <= y < 3 and 0 <= x < 4
                                else b.q(0) for x in (xl, xl + 1)]
                               for y in (yl, yl + 1)], "float64"))


@scenario("L02", "box_masks", bounds="boxes of 2..4 pixels a side at 6 "
          "offsets; user masks of any subset of 3 pixels")
def s6b(b):
    m = b.mod("africanus.linalg.geometry")
    ox, oy = b.pick("o", [(0, 0), (-3, -2), (5, 0), (0, 5), (7, -9), (-9, 7)])
    nx, ny = b.int("nx", 2, 4), b.int("ny", 2, 4)
    h = m.BoundingBox(ox, ox + nx - 1, oy, oy + ny - 1)
    inside = sorted((y, x) for y in range(oy, oy + ny)
                    for x in range(ox, ox + nx))
    b.same("sparse mask", sorted((int(y), int(x)) for y, x in h.sparse_mask),
           inside)
    w = weights(b, m, h)
    b.same("filled mask", sorted(k for k, v in w.items() if v == 1), inside)
    b.same("nothing else", len(w), nx * ny)
    use = [p for k, p in enumerate(
        [(oy, ox), (oy + 1, ox + 1), (oy + 9, ox)]) if b.bool("u%d" % k)]
    h.sparse_mask = use
    w = weights(b, m, h)
    b.same("new mask is served", sorted(k for k, v in w.items() if v == 1),
           sorted(set(use) & set(inside)))


@scenario("L02", "split_and_stitch", bounds="boxes of 4..7 by 4..6 pixels at "
          "2 offsets split into 1..4 or 9 sub-boxes of at least 2 pixels; "
          "any image values")
def s8(b):
    m = b.mod("africanus.linalg.geometry")
    F = m.BoundingBoxFactory
    w, hh = b.int("w", 4, 7), b.int("h", 4, 6)
    n = b.int("n", 1, 3)
    sx, sy = -(-w // n), -(-hh // n)
    if w - sx * (n - 1) < 2 or hh - sy * (n - 1) < 2:
        b.true("thin sub-boxes, not claimed", True)
        return
    xl, yl = b.pick("o", [(0, 0), (-3, -2), (2, 1)])
    img = b.reals("img", (hh, w))
    bx = m.BoundingBox(xl, xl + w - 1, yl, yl + hh - 1)
    subs = F.SplitBox(bx, n) if n > 1 or b.bool("explicit") else \
        F.SplitBox(bx)
    b.same("count", len(subs), n * n)
    seen = {}
    data = []
    for s in subs:
        c = s.corners
        x0, x1 = int(np.min(c[:, 0])), int(np.max(c[:, 0]))
        y0, y1 = int(np.min(c[:, 1])), int(np.max(c[:, 1]))
        b.same("size in pixels", tuple(int(v) for v in s.box_npx),
               (x1 - x0 + 1, y1 - y0 + 1))
        for y in range(y0, y1 + 1):
            for x in range(x0, x1 + 1):
                seen[(y, x)] = seen.get((y, x), 0) + 1
        data.append(img[y0 - yl:y1 + 1 - yl, x0 - xl:x1 + 1 - xl].copy())
    b.same("the sub-boxes tile the box", seen,
           {(y, x): 1 for y in range(yl, yl + hh)
            for x in range(xl, xl + w)})
    st, reg = m.BoundingBox.project_regions(data, subs, axes=(0, 1))
    b.eq("stitched", st, img)
    b.same("region", [int(np.min(reg.corners[:, 0])),
                      int(np.max(reg.corners[:, 0])),
                      int(np.min(reg.corners[:, 1])),
                      int(np.max(reg.corners[:, 1]))],
           [xl, xl + w - 1, yl, yl + hh - 1])
    b.same("combined mask", sorted((int(y), int(x))
                                   for y, x in reg.sparse_mask),
           sorted((y, x) for y in range(yl, yl + hh)
                  for x in range(xl, xl + w)))


@scenario("L02", "normalised_masks", bounds="two or three overlapping boxes "
          "or triangles, incl. negative coordinates; coadding cut-outs "
          "restores the image")
def s9(b):
    m = b.mod("africanus.linalg.geometry")
    ox, oy = b.pick("o", [(0, 0), (-2, -3)])
    dx, dy = b.int("dx", 0, 3), b.int("dy", 0, 2)
    regs = [m.BoundingBox(ox, ox + 2, oy, oy + 2),
            m.BoundingBox(ox + dx, ox + dx + 2, oy + dy, oy + dy + 1)]
    if b.bool("third"):
        regs.append(m.BoundingBox(ox + 1, ox + 2, oy, oy + 1))
    if b.bool("hull"):
        regs.append(m.BoundingConvexHull([[ox, oy], [ox + 2, oy],
                                          [ox, oy + 2]]))
    before = [{k: v for k, v in weights(b, m, g).items()} for g in regs]
    m.BoundingConvexHull.normalize_masks(
        regs, only_overlapped_regions=b.bool("only"))
    tot = {}
    for g, old in zip(regs, before):
        w = weights(b, m, g)
        b.same("same pixels", sorted(k for k in w if w[k] != 0),
               sorted(k for k in old if old[k] != 0))
        for k, v in w.items():
            if old[k] != 0:
                tot.setdefault(k, []).append(v)
    for k, v in sorted(tot.items()):
        s = 0
        for x in v:
            b.eq("equal shares", x * len(v), 1)
            s = s + x
        b.eq("weights sum to one", s, 1)


@scenario("L02", "bounding_boxes", bounds="any triangle with corners in a "
          "5x5 neighbourhood at 2 offsets: bounding box contains it, odd and "
          "square options; padding of odd boxes")
def s10(b):
    m = b.mod("africanus.linalg.geometry")
    F = m.BoundingBoxFactory
    ox, oy = b.pick("o", [(2, -1), (-3, 2)])
    t = [[ox, oy + b.pick("ay", [0, 2])],
         [ox + b.int("bx", 1, 4), oy],
         [ox + b.pick("cx", [0, 1, 3]), oy + b.int("cy", 1, 4)]]
    if cross(*t) == 0:
        b.true("degenerate, not claimed", True)
        return
    h = m.BoundingConvexHull(t)
    sq, odd = b.bool("square"), b.bool("odd")
    bx = F.AxisAlignedBoundingBox(h, square=sq, enforce_odd=odd)
    c = bx.corners
    x0, x1 = int(np.min(c[:, 0])), int(np.max(c[:, 0]))
    y0, y1 = int(np.min(c[:, 1])), int(np.max(c[:, 1]))
    lx, ux = min(p[0] for p in t), max(p[0] for p in t)
    ly, uy = min(p[1] for p in t), max(p[1] for p in t)
    b.true("contains the hull",
           x0 <= lx and x1 >= ux and y0 <= ly and y1 >= uy)
    nx, ny = x1 - x0 + 1, y1 - y0 + 1
    wx, wy = ux - lx + 1, uy - ly + 1
    if sq:
        b.true("square", nx == ny)
        wx = wy = max(wx, wy)
    if odd:
        b.true("odd", nx % 2 == 1 and ny % 2 == 1)
        wx, wy = wx + 1 - wx % 2, wy + 1 - wy % 2
    b.same("tight", (nx, ny), (wx, wy))
    b.same("mask kept", sorted((int(y), int(x)) for y, x in bx.sparse_mask),
           sorted((int(y), int(x)) for y, x in h.sparse_mask))
    if odd:
        px, py = b.pick("pad", [(0, 0), (1, 2), (2, 1)])
        pad = F.PadBox(bx, nx + px, ny + py)
        c = pad.corners
        p0, p1 = int(np.min(c[:, 0])), int(np.max(c[:, 0]))
        q0, q1 = int(np.min(c[:, 1])), int(np.max(c[:, 1]))
        b.same("padded size", (p1 - p0 + 1, q1 - q0 + 1), (nx + px, ny + py))
        b.true("padded box contains the box",
               p0 <= x0 and p1 >= x1 and q0 <= y0 and q1 >= y1)
        b.true("centred", abs((x0 - p0) - (p1 - x1)) <= 1 and
               abs((y0 - q0) - (q1 - y1)) <= 1)
        b.raises("padding cannot shrink", ValueError,
                 lambda: F.PadBox(bx, nx - 1, ny))
