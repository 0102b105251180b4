"""C12: sampling, gradient and illumination of rasters."""
import scipy.interpolate

from ..spec import grid as SG
from ..spec.camera import col
from ..vg import compare as C
from ..vg import scipymod as M
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method

NAN = float("nan")


def run(ctx):
    ctx.rule("R1-points", "a sample at a point is the bilinear (or nearest) interpolation "
             "of the cell centers, for either direction of each axis and for single rows, "
             "columns and cells")
    ctx.rule("R2-grids", "samples on a grid equal the samples at its points, rows of the "
             "result following y and columns following x in the order given")
    ctx.rule("R3-bounds", "points outside the bounds are rejected, filled or extrapolated "
             "as asked, points on the bounds are inside")
    ctx.rule("R4-resample", "resampling takes the samples at the cell centers and the "
             "limits of the other grid")
    ctx.rule("R5-surface", "gradients and illumination are in map directions (x to the "
             "east, y to the north)")
    ctx.rule("R6-values", "value limits, data extent and grid describe the values")
    n = T.dim("n")
    for nx, ny in ((3, 2), (4, 3), (3, 1), (1, 4), (1, 1)):
        for sx, sy in ((1, -1), (1, 1), (-1, -1), (-1, 1)):
            if (nx, ny) == (4, 3) and ctx.tier == "quick" and sx == sy:
                continue
            g = SG.G(size=(nx, ny), sx=sx, sy=sy)
            o = f"{nx}x{ny},x{'+' if sx > 0 else '-'},y{'+' if sy > 0 else '-'}"
            for kind in ("f", "i"):
                if kind == "i" and (nx, ny) not in ((3, 2), (1, 1), (3, 1)):
                    continue
                z = V.sym_array("z" + kind, (ny, nx), "int" if kind == "i" else "real")
                z.kind = kind
                sampling(ctx, g, z, n, o + (",int" if kind == "i" else ""))
    missing(ctx)
    surface(ctx)
    resample(ctx)
    values(ctx)
    splines(ctx)
    ctx.need("R1-points", 10)
    ctx.need("R2-grids", 5)
    ctx.assumptions += ["interpolators of order above 1 are uninterpreted functions",
                        "real arithmetic; grids of up to 4 x 3 cells"]


def value(g, z, x, y, kind="linear"):
    """Interpolated value at a point."""
    xs = [g.xc(j) for j in range(g.nx)]
    ys = [g.yc(i) for i in range(g.ny)]
    v = [[z.data[i, j] for i in range(g.ny)] for j in range(g.nx)]
    if g.sx < 0:
        xs, v = xs[::-1], v[::-1]
    if g.sy < 0:
        ys, v = ys[::-1], [c[::-1] for c in v]
    cols = [M.along(kind, ys, c, y) if g.ny > 1 else c[0] for c in v]
    return M.along(kind, xs, cols, x) if g.nx > 1 else cols[0]


def within(g):
    """Points anywhere in a box twice the size of the grid."""
    n = T.dim("n")
    t = V.sym_array("t", (n, 2), ("range", -0.5, 1.5))
    px, py = (T.add(a[0], T.mul(t.data[0, k], T.sub(a[1], a[0])))
              for k, a in enumerate((g.x, g.y)))
    return V.Arr(V.to_arr([[px, py]]).data, (n, 2), "f")


def sampling(ctx, g, z, n, o):
    P = within(g)
    px, py = P.data[0]
    inside = g.inside(px, py)

    def m(*a, **kw):
        return lift(ctx, lambda l: method(l, g.raster(l, z.copy()), "sample", *[
            tuple(y.copy() for y in x) if isinstance(x, tuple) else x.copy()
            for x in a], **kw))
    fv = T.sym("fv")
    for order, kind in ((1, "linear"), (0, "nearest")):
        v = value(g, z, px, py, kind)
        for nm, fill, kw in (("default fill", NAN, {}), ("fill", fv, {"fill_value": fv}),
                             ("integer fill", -3, {"fill_value": -3}),
                             ("extrapolated", None, {"fill_value": None})):
            want = v if fill is None else T.ite(inside, v, fill)
            C.check(ctx, "R1-points", f"Raster.sample[order={order},{nm},{o}]",
                    m(P, order=order, bounds_error=False, **kw), col(n, want))
    C.check(ctx, "R1-points", f"Raster.sample[default order,{o}]", m(
        P, bounds_error=False), col(n, T.ite(inside, value(g, z, px, py), NAN)))
    # whether points are rejected
    x, y = T.sym("bx"), T.sym("by")
    C.check_raises(ctx, "R3-bounds", f"Raster.sample[outside,{o}]",
                   m(SG.V.to_arr([[T.add(g.max[0], 1), y], [x, y]])))
    mid = [T.div(T.add(*a), 2) for a in (g.x, g.y)]
    corners = SG.V.to_arr([[a, b] for a in g.x + (mid[0],) for b in g.y + (mid[1],)])
    for kw in ({}, {"fill_value": None}, {"bounds_error": False}):
        C.check(ctx, "R3-bounds", f"Raster.sample[on the bounds,{len(kw)},"
                f"{'fill' if 'fill_value' in kw else 'nan'},{o}]", m(corners, **kw),
                SG.farr(*[value(g, z, a, b) for a, b in corners.data]))
    # grids
    fr = {"ascending": (0.05, 0.3, 0.95), "descending": (1, 0.6, 0.2), "single": (0.45,)}
    lo, hi = g.min, g.max
    at = lambda k, t: T.add(lo[k], T.mul(t, T.sub(hi[k], lo[k])))   # noqa: E731
    for nm, fx, fy in (("ascending", "ascending", "ascending"),
                       ("descending", "descending", "descending"),
                       ("mixed", "descending", "ascending"),
                       ("single x", "single", "descending"),
                       ("single y", "ascending", "single"), ("point", "single", "single")):
        xs = [at(0, T.mul(t, T.sym(f"q{i}", (), ("range", 0.9, 1.0))))
              for i, t in enumerate(fr[fx])]
        ys = [at(1, T.mul(t, T.sym(f"r{i}", (), ("range", 0.9, 1.0))))
              for i, t in enumerate(fr[fy][:2])]
        for kw in ({}, {"bounds_error": False}):
            C.check(ctx, "R2-grids", f"Raster.sample[grid,{nm},{len(kw)},{o}]", m(
                (SG.farr(*xs), SG.farr(*ys)), grid=True, **kw),
                V.to_arr([[value(g, z, x, y) for x in xs] for y in ys]))
    # some columns and rows outside
    xs = [T.sub(lo[0], 1), at(0, 0.3), at(0, 0.7), T.add(hi[0], 2)]
    ys = [at(1, 0.8), at(1, 0.1), T.sub(lo[1], 3)]
    for nm, fill, kw in (("default fill", NAN, {}), ("fill", fv, {"fill_value": fv})):
        C.check(ctx, "R3-bounds", f"Raster.sample[grid,{nm},{o}]", m(
            (SG.farr(*xs), SG.farr(*ys)), grid=True, bounds_error=False, **kw),
            V.to_arr([[value(g, z, x, y) if j in (1, 2) and i < 2 else fill
                       for j, x in enumerate(xs)] for i, y in enumerate(ys)]))
    for nm, kx, ky in (("x", xs, ys[:2]), ("y", xs[1:3], ys)):
        C.check_raises(ctx, "R3-bounds", f"Raster.sample[grid,outside in {nm},{o}]", m(
            (SG.farr(*kx), SG.farr(*ky)), grid=True))


def missing(ctx):
    """Samples next to missing cells are missing, and only those."""
    n = T.dim("n")
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(4, 4), sx=sx, sy=sy)
        P = within(g)
        px, py = P.data[0]
        lo, hi = g.min, g.max
        at = lambda k, t: T.add(lo[k], T.mul(t, T.sub(hi[k], lo[k])))   # noqa: E731
        xs = [at(0, T.mul(t, T.sym(f"q{i}", (), ("range", 0.9, 1.0))))
              for i, t in enumerate((0.05, 0.3, 0.55, 0.7, 0.98))]
        ys = [at(1, T.mul(t, T.sym(f"r{i}", (), ("range", 0.9, 1.0))))
              for i, t in enumerate((0.95, 0.6, 0.4, 0.2))]
        for nm, cells, kind in (("one", [(1, 2)], "real"), ("corner", [(0, 0)], "neg"),
                                ("two", [(0, 3), (3, 1)], "pos")):
            z = V.sym_array("z", (4, 4), kind)
            for k in cells:
                z.data[k] = NAN
            tag = f"{nm} missing,x{'+' if sx > 0 else '-'},y{'+' if sy > 0 else '-'}"
            for order, by in ((1, "linear"), (0, "nearest")):
                C.check(ctx, "R1-points", f"Raster.sample[order={order},{tag}]", lift(
                    ctx, lambda l: method(l, g.raster(l, z.copy()), "sample", P.copy(),
                                          order=order, bounds_error=False)),
                        col(n, T.ite(g.inside(px, py), value(g, z, px, py, by), NAN)))
            C.check(ctx, "R2-grids", f"Raster.sample[grid,{tag}]", lift(
                ctx, lambda l: method(l, g.raster(l, z.copy()), "sample", (
                    SG.farr(*xs), SG.farr(*ys)), grid=True)),
                V.to_arr([[value(g, z, x, y) for x in xs] for y in ys]))


def surface(ctx):
    r = "R5-surface"
    z = V.sym_array("z", (3, 4))
    az, alt = T.sym("az", (), ("range", 0, 360)), T.sym("alt", (), ("range", 5, 85))
    for sx, sy in ((1, -1), (1, 1), (-1, -1), (-1, 1)):
        g = SG.G(size=(4, 3), sx=sx, sy=sy)
        o = f"x{'+' if sx > 0 else '-'},y{'+' if sy > 0 else '-'}"
        gy, gx = M.gradient(None, z, g.dy, g.dx)
        C.check(ctx, r, f"Raster.gradient[{o}]", lift(
            ctx, lambda l: method(l, g.raster(l, z.copy()), "gradient")), (gx, gy))
        for nm, kw, a, h in (("given", {"azimuth": az, "altitude": alt}, az, alt),
                             ("default", {}, 315, 45)):
            C.check(ctx, r, f"Raster.hillshade[{nm},{o}]", lift(
                ctx, lambda l: method(l, g.raster(l, z.copy()), "hillshade", **kw)),
                M.illuminate(z, g.dx, g.dy, a, h))


def resample(ctx):
    z = V.sym_array("z", (3, 4))
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(4, 3), sx=sx, sy=sy)
        # a grid that overlaps the raster only in part
        for bx, by in ((1, -1), (-1, 1), (1, 1)):
            h = SG.G(size=(3, 2), sx=bx, sy=by)
            w = [T.sub(g.max[k], g.min[k]) for k in (0, 1)]
            lim = []
            for k, s in ((0, bx), (1, by)):
                a, b = (T.add(g.min[k], T.mul(t, w[k])) for t in (0.3, 1.6))
                lim.append((a, b) if s > 0 else (b, a))
            h.x, h.y = lim
            xs = [h.xc(j) for j in range(3)]
            ys = [h.yc(i) for i in range(2)]
            want = V.to_arr([[T.ite(g.inside(x, y), value(g, z, x, y), NAN) for x in xs]
                             for y in ys])

            def body(l):
                k = g.raster(l, z.copy())
                l.getattr(k, "Zf"), l.getattr(k, "X")
                method(l, k, "resample", h.build(l), bounds_error=False)
                return tuple(l.getattr(k, a) for a in ("array", "xlim", "ylim", "x", "y",
                                                       "size"))
            C.check(ctx, "R4-resample", f"Raster.resample[{sx},{sy},{bx},{by}]",
                    lift(ctx, body), (want, h.xlim, h.ylim, SG.farr(*xs), SG.farr(*ys),
                                      h.size))
            C.check_raises(ctx, "R4-resample", f"Raster.resample[outside,{sx},{sy},{bx},"
                           f"{by}]", lift(ctx, lambda l: method(
                               l, g.raster(l, z.copy()), "resample", h.build(l))))


def splines(ctx):
    """Known values, sampled by splines of all degrees."""
    known = V.np.array([[(7 * i * i + 3 * j * j * j + 5 * i * j) % 23 for j in range(7)]
                        for i in range(6)], dtype=float)
    for sx, sy in ((1, -1), (-1, 1)):
        x, y = (-3.0, 11.0)[::sx], (2.0, 5.0)[::sy]
        xc = V.np.linspace(-2.0, 10.0, 7)
        yc = V.np.linspace(2.25, 4.75, 6)
        for order in (1, 2, 3, 4, 5):
            f = scipy.interpolate.RectBivariateSpline(
                yc, xc, known[::sy, ::sx], kx=order, ky=order, bbox=(2.0, 5.0, -3.0, 11.0))
            for qx, qy in (([-1.7, 0.2, 5.1], [2.4, 4.6]), ([8.3, 0.2], [4.1, 3.3, 2.9])):
                ax, ay = sorted(qx), sorted(qy)
                t = f(ay, ax)
                want = [[float(t[ay.index(v), ax.index(u)]) for u in qx] for v in qy]
                C.check(ctx, "R2-grids", f"Raster.sample[known values,order {order},{sx},"
                        f"{qx}]", lift(ctx, lambda l: method(l, l.construct(
                            l.prog.cls("Raster"), [V.to_arr(known.tolist())], dict(
                                x=SG.farr(*x), y=SG.farr(*y))), "sample", (
                                    SG.farr(*qx), SG.farr(*qy)), grid=True, order=order)),
                        V.to_arr(want), tol=1e-8)


def values(ctx):
    r = "R6-values"
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(4, 3), sx=sx, sy=sy)
        o = f"x{'+' if sx > 0 else '-'}"
        z = V.sym_array("z", (3, 4))
        for nm, hole in (("no gaps", ()), ("gap", ((1, 2), (0, 0)))):
            zn = z.copy()
            for i, j in hole:
                zn.data[i, j] = NAN
            live = [z.data[i, j] for i in range(3) for j in range(4) if (i, j) not in hole]
            lo = hi = live[0]
            for t in live[1:]:
                lo, hi = T.app("min2", lo, t), T.app("max2", hi, t)
            C.check(ctx, r, f"Raster.zlim[{nm},{o}]", lift(
                ctx, lambda l: l.getattr(g.raster(l, zn.copy()), "zlim")),
                SG.farr(lo, hi))
            C.check(ctx, r, f"Raster.box3d[{nm},{o}]", lift(
                ctx, lambda l: l.getattr(g.raster(l, zn.copy()), "box3d")),
                SG.farr(*g.min, lo, *g.max, hi))
        C.check(ctx, r, f"Raster.grid[{o}]", lift(ctx, lambda l: (lambda k: tuple(
            l.getattr(k, a) for a in ("size", "xlim", "ylim", "x", "y")))(
                l.getattr(g.raster(l, z.copy()), "grid"))),
            (g.size, g.xlim, g.ylim) + tuple(g.centers()))
        for nm, rs, cs, extra in (
                ("inner", (1, 2), (1, 3), ()), ("all", (0, 3), (0, 4), ()),
                ("one cell", (2, 3), (0, 1), ()), ("corner", (0, 2), (2, 4), ()),
                ("gaps", (0, 3), (0, 3), ((0, 0), (1, 1), (2, 2), (0, 1)))):
            zn = z.copy()
            for i in range(3):
                for j in range(4):
                    if not (rs[0] <= i < rs[1] and cs[0] <= j < cs[1]) or \
                            (i, j) in extra:
                        zn.data[i, j] = NAN

            def extent(l):
                a, b = method(l, g.raster(l, zn.copy()), "data_extent")
                return a.start, a.stop, b.start, b.stop
            C.check(ctx, r, f"Raster.data_extent[{nm},{o}]", lift(ctx, extent), rs + cs)

            def crop(l):
                k = g.raster(l, zn.copy())
                l.getattr(k, "X"), l.getattr(k, "Y")
                method(l, k, "crop_to_data")
                return tuple(l.getattr(k, a) for a in ("array", "xlim", "ylim", "x", "y",
                                                       "X", "Y"))
            xs = [g.xc(j) for j in range(*cs)]
            ys = [g.yc(i) for i in range(*rs)]
            ex = [T.add(g.x[0], T.mul(k, g.dx)) for k in cs]
            ey = [T.add(g.y[0], T.mul(k, g.dy)) for k in rs]
            C.check(ctx, r, f"Raster.crop_to_data[{nm},{o}]", lift(ctx, crop), (
                V.to_arr([[zn.data[i, j] for j in range(*cs)] for i in range(*rs)]),
                SG.farr(*ex), SG.farr(*ey), SG.farr(*xs), SG.farr(*ys),
                V.to_arr([xs] * len(ys)), V.to_arr([[y] * len(xs) for y in ys])))
        zn = V.to_arr([[NAN] * 4] * 3)
        zn.kind = "f"
        C.check_raises(ctx, r, f"Raster.data_extent[no data,{o}]", lift(
            ctx, lambda l: method(l, g.raster(l, zn.copy()), "data_extent")))
