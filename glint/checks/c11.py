"""C11: grid and raster coordinates."""
import ast
import itertools
import math

from ..spec import grid as SG
from ..spec.camera import col, rows
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method

HALF = 0.5


def run(ctx):
    ctx.rule("R1-coordinates", "cell size, extent, cell-center vectors and matrices of a "
             "grid follow from its limits and size, in either direction of each axis")
    ctx.rule("R2-conversions", "conversions between map coordinates, image coordinates, "
             "array indices and flat indices follow the documented grid geometry (x with "
             "columns, y with rows, integer indices at cell centers) and invert each "
             "other")
    ctx.rule("R3-snapping", "snapping returns the nearest cell center, edge or both; "
             "points on the far bounds fall in the last cell")
    ctx.rule("R4-construction", "limits, center vectors and coordinate matrices describe "
             "the same grid; malformed sizes and limits are rejected")
    ctx.rule("R5-subsets", "cropped extents, subsets and tiles cover exactly the cells "
             "they name")
    ctx.rule("R6-metadata", "what is derived from a grid or raster keeps its coordinate "
             "system and time")
    metadata(ctx)
    n = T.dim("n")
    P = V.sym_array("P", (n, 2))
    px, py = P.data[0]
    for sx in (1, -1):
        for sy in (1, -1):
            o = f"x{'+' if sx > 0 else '-'},y{'+' if sy > 0 else '-'}"
            g = SG.G(sx=sx, sy=sy)
            for late in (False, True):
                gg = g.replace(late=late)
                tag = o + (",reassigned" if late else "")
                attributes(ctx, gg, tag, SCALAR)
                for size in ((1, 1), (2, 3), (4, 3)):
                    attributes(ctx, SG.G(size=size, sx=sx, sy=sy, late=late),
                               f"{size[0]}x{size[1]},{tag}", VECTOR)
            conversions(ctx, g.replace(late=True), o, n, P)
            snapping(ctx, g, o, n, P)
    g = SG.G()
    gu = SG.G(size=(4, 3), unit=True)
    Pu = V.sym_array("Pu", (n, 2), ("choice", (-1, -0.5, 0, 0.5, 1, 1.5, 2, 3, 5)))
    # edges of both directions
    for sx, sy in ((1, -1), (-1, 1)):
        gu = SG.G(size=(4, 3), unit=True, sx=sx, sy=sy)
        tag = f"on cell edges,x{'+' if sx > 0 else '-'}"
        snapping(ctx, gu, tag, n, Pu)
        C.check(ctx, "R2-conversions", f"Grid.inbounds_xy[{tag}]", lift(
            ctx, lambda l: method(l, gu.build(l), "inbounds_xy", Pu.copy())), col(
                n, gu.inside(*Pu.data[0]), "b"))
        C.check(ctx, "R2-conversions", f"Grid.inbounds[{tag}]", lift(
            ctx, lambda l: method(l, gu.build(l), "inbounds", Pu.copy())), col(
                n, uv_inside(gu, *Pu.data[0]), "b"))
        ux, uy = (V.sym_array(k, (n,), ("choice", (-1, -0.5, 0, 1, 2, 3, 5)))
                  for k in ("eux", "euy"))
        C.check(ctx, "R2-conversions", f"Grid.inbounds_xy[grid,{tag}]", lift(
            ctx, lambda l: method(l, gu.build(l), "inbounds_xy", (ux.copy(), uy.copy()),
                                  grid=True)), tuple(
            col(n, T.land(T.app("le", gu.min[k], v), T.app("le", v, gu.max[k])), "b")
            for k, v in enumerate((ux.data[0], uy.data[0]))))
    construction(ctx)
    subsets(ctx)
    changes(ctx)
    ctx.need("R1-coordinates", 3)
    ctx.need("R2-conversions", 5)
    ctx.assumptions += [
        "real arithmetic; numpy semantics as tabulated in glint/vg",
        "tile layouts and subsets are enumerated for small sizes",
    ]


def uv_inside(g, u, v):
    return T.land(T.app("le", 0, u), T.app("le", u, g.nx), T.app("le", 0, v),
                  T.app("le", v, g.ny))


SCALAR = ("size", "shape", "xlim", "ylim", "d", "min", "max", "box2d")
VECTOR = ("x", "y", "X", "Y")


def attributes(ctx, g, tag, names):
    get = lambda a: lift(ctx, lambda l: l.getattr(g.build(l), a))   # noqa: E731
    f = SG.farr
    x, y = g.centers()
    X, Y = g.matrices()
    for a, want in (("size", g.size), ("shape", (g.ny, g.nx)), ("xlim", g.xlim),
                    ("ylim", g.ylim), ("d", f(g.dx, g.dy)), ("min", f(*g.min)),
                    ("max", f(*g.max)), ("box2d", f(*g.min, *g.max)), ("x", x), ("y", y),
                    ("X", X), ("Y", Y)):
        if a in names:
            C.check(ctx, "R1-coordinates", f"Grid.{a}[{tag}]", get(a), want)


def conversions(ctx, g, o, n, P):
    px, py = P.data[0]
    r = "R2-conversions"

    def m(name, *a, **kw):
        return lift(ctx, lambda l: method(l, g.build(l), name, *[
            x.copy() if isinstance(x, V.Arr) else x for x in a], **kw))
    fx, fy = g.frac(px, py)
    C.check(ctx, r, f"Grid.inbounds_xy[{o}]", m("inbounds_xy", P),
            col(n, g.inside(px, py), "b"))
    vx, vy = V.sym_array("vx", (n,)), V.sym_array("vy", (T.dim("m"),))
    lo, hi = g.min, g.max

    def within(v, k):
        return T.land(T.app("le", lo[k], v), T.app("le", v, hi[k]))
    C.check(ctx, r, f"Grid.inbounds_xy[grid,{o}]", m("inbounds_xy", (vx, vy), grid=True),
            (col(n, within(vx.data[0], 0), "b"),
             col(T.dim("m"), within(vy.data[0], 1), "b")))
    C.check(ctx, r, f"Grid.inbounds[{o}]", m("inbounds", P),
            col(n, uv_inside(g, px, py), "b"))
    C.check(ctx, r, f"Grid.xyz_to_uv[{o}]", m("xyz_to_uv", P), rows(n, (fx, fy)))
    Q = V.sym_array("Q", (n, 3))
    C.check(ctx, r, f"Grid.xyz_to_uv[with z,{o}]", m("xyz_to_uv", Q),
            rows(n, g.frac(*Q.data[0][:2])))
    back = (T.add(g.x[0], T.mul(px, g.dx)), T.add(g.y[0], T.mul(py, g.dy)))
    C.check(ctx, r, f"Grid.uv_to_xyz[{o}]", m("uv_to_xyz", P),
            rows(n, back + (float("nan"),)))
    C.check(ctx, r, f"Grid.rowcol_to_xy[{o}]", m("rowcol_to_xy", P),
            rows(n, (g.xc(py), g.yc(px))))
    C.check(ctx, r, f"Grid.xy_to_rowcol[{o}]", m("xy_to_rowcol", P),
            rows(n, (T.sub(fy, HALF), T.sub(fx, HALF))))
    RC = V.sym_array("RC", (n, 2), "posint")
    RC.kind = "i"
    C.check(ctx, r, f"Grid.xy_to_rowcol[of rowcol_to_xy,{o}]", lift(
        ctx, lambda l: (lambda k: method(l, k, "xy_to_rowcol", method(
            l, k, "rowcol_to_xy", RC.copy()), snap=True))(g.build(l))), RC)
    C.check(ctx, r, f"Grid.uv_to_xyz[of xyz_to_uv,{o}]", lift(
        ctx, lambda l: (lambda k: method(l, k, "uv_to_xyz", method(
            l, k, "xyz_to_uv", P.copy())))(g.build(l))), rows(n, (px, py, float("nan"))))
    # flat indices count along rows first
    gi = g.replace(nx=7, ny=5)
    row = V.sym_array("row", (n,), ("choice", (0, 1, 2, 3, 4)))
    cl = V.sym_array("col", (n,), ("choice", (0, 1, 2, 3, 4, 5, 6)))
    rc = rows(n, (row.data[0], cl.data[0]), "i")
    idx = T.add(T.mul(row.data[0], 7), cl.data[0])
    C.check(ctx, r, f"Grid.rowcol_to_idx[{o}]", lift(ctx, lambda l: method(
        l, gi.build(l), "rowcol_to_idx", rc.copy())), col(n, idx, "i"))
    C.check(ctx, r, f"Grid.idx_to_rowcol[{o}]", lift(ctx, lambda l: method(
        l, gi.build(l), "idx_to_rowcol", col(n, idx, "i"))), rc)


def snapping(ctx, g, o, n, P):
    px, py = P.data[0]
    fr = g.frac(px, py)
    org, d = (g.x[0], g.y[0]), (g.dx, g.dy)

    def m(name, *a, **kw):
        return lift(ctx, lambda l: method(l, g.build(l), name, *[
            x.copy() if isinstance(x, V.Arr) else x for x in a], **kw))

    def at(ts):
        return [T.add(z, T.mul(t, s)) for z, t, s in zip(org, ts, d)]
    fl = lambda x: T.app("floor", x)        # noqa: E731
    for inb in (True, False):
        cell = g.cell(px, py, inb)
        C.check(ctx, "R3-snapping", f"Grid.snap_xy[centers,inbounds={inb},{o}]",
                m("snap_xy", P, centers=True, inbounds=inb),
                rows(n, at([T.add(c, HALF) for c in cell])))
        C.check(ctx, "R3-snapping", f"Grid.xy_to_rowcol[snap,inbounds={inb},{o}]",
                m("xy_to_rowcol", P, snap=True, inbounds=inb), rows(n, cell[::-1]))
        C.check(ctx, "R3-snapping", f"Grid.snap_xy[edges,inbounds={inb},{o}]",
                m("snap_xy", P, edges=True, inbounds=inb),
                rows(n, at([fl(T.add(t, HALF)) for t in fr])))
        C.check(ctx, "R3-snapping", f"Grid.snap_xy[centers and edges,inbounds={inb},{o}]",
                m("snap_xy", P, centers=True, edges=True, inbounds=inb),
                rows(n, at([T.div(fl(T.add(T.mul(2, t), HALF)), 2) for t in fr])))
    C.check_raises(ctx, "R3-snapping", f"Grid.snap_xy[nothing to snap to,{o}]",
                   m("snap_xy", P))


def construction(ctx):
    r = "R4-construction"
    Grid = lambda l, *a, **kw: l.construct(l.prog.cls("Grid"), list(a), kw)   # noqa: E731
    s = T.sym("s", (), "posint")
    t = T.sym("t", (), "posint")

    def limits(l, g):
        return tuple(l.getattr(g, a) for a in ("size", "xlim", "ylim"))
    C.check(ctx, r, "Grid[scalar size, default limits]", lift(
        ctx, lambda l: limits(l, Grid(l, s))),
        (SG.farr(s, s, kind="i"), SG.farr(0, s), SG.farr(0, s)))
    C.check(ctx, r, "Grid[default limits]", lift(ctx, lambda l: limits(l, Grid(
        l, SG.farr(s, t, kind="i")))), (SG.farr(s, t, kind="i"), SG.farr(0, s),
                                       SG.farr(0, t)))
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(4, 3), sx=sx, sy=sy)
        x, y = g.centers()
        X, Y = g.matrices()
        tag = f"x{'+' if sx > 0 else '-'}"

        def everything(l, k):
            return tuple(l.getattr(k, a) for a in (
                "size", "xlim", "ylim", "x", "y", "X", "Y", "d"))
        want = (g.size, g.xlim, g.ylim, x, y, X, Y, SG.farr(g.dx, g.dy))
        for nm, kx, ky in (("center vectors", x, y), ("coordinate matrices", X, Y),
                           ("vector and limits", x, g.ylim),
                           ("limits and matrix", g.xlim, Y)):
            C.check(ctx, r, f"Grid[{nm},{tag}]", lift(ctx, lambda l: everything(l, Grid(
                l, g.size, x=kx.copy(), y=ky.copy()))), want)
            z = V.sym_array("z", (3, 4))
            C.check(ctx, r, f"Raster[{nm},{tag}]", lift(
                ctx, lambda l: everything(l, l.construct(
                    l.prog.cls("Raster"), [z.copy()], dict(x=kx.copy(), y=ky.copy())))),
                want)
    z = V.sym_array("z", (3, 4))
    C.check(ctx, r, "Raster[default limits]", lift(ctx, lambda l: limits(l, l.construct(
        l.prog.cls("Raster"), [z.copy()], {}))), (SG.farr(4, 3, kind="i"),
                                                 SG.farr(0, 4), SG.farr(0, 3)))
    a = T.sym("a")
    # limits set
    for which in ("xlim", "ylim"):
        for new in ((0.0, 4.0), (4.0, 0.0), (1.0, 4.0), (4.0, 1.0), (2.5, -7.0)):
            for kind in ("Grid", "Raster"):
                def put(l):
                    k = l.construct(l.prog.cls(kind), [
                        SG.farr(4, 4, kind="i") if kind == "Grid" else
                        V.sym_array("z", (4, 4))], dict(x=(0.0, 4.0), y=(4.0, 0.0)))
                    for n in "xyXY":
                        l.getattr(k, n)
                    l.setattr(k, which, new)
                    return (l.getattr(k, which), l.getattr(k, which[0]),
                            l.getattr(k, "xy".replace(which[0], "") + "lim"))
                step = (new[1] - new[0]) / 4
                C.check(ctx, r, f"{kind}.{which}[set to {new}]", lift(ctx, put), (
                    SG.farr(*new), SG.farr(*[new[0] + step * (k + 0.5) for k in range(4)]),
                    SG.farr(*((4.0, 0.0) if which == "xlim" else (0.0, 4.0)))))
    bad = (("three sizes", (SG.farr(2, 3, 4, kind="i"),), {}),
           ("zero size", (SG.farr(2, 0, kind="i"),), {}),
           ("negative size", (SG.farr(-2, 3, kind="i"),), {}),
           ("zero size, limits", (SG.farr(0, 2, kind="i"),), {
               "x": SG.farr(0, 3), "y": SG.farr(0, 2)}),
           ("fractional size", (SG.farr(2.5, 3.0),), {}),
           ("equal limits in x", (SG.farr(2, 3, kind="i"),), {"x": SG.farr(a, a)}),
           ("equal limits in y", (SG.farr(2, 3, kind="i"),), {"y": SG.farr(a, a)}))
    for nm, args, kw in bad:
        C.check_raises(ctx, r, f"Grid[{nm}]", lift(ctx, lambda l: Grid(
            l, *[v.copy() for v in args], **{k: v.copy() for k, v in kw.items()})))


def subsets(ctx):
    r = "R5-subsets"
    # extents: limits that fall inside cells (p + fraction) select cells p .. q
    for sx, sy in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
        g = SG.G(size=(7, 5), sx=sx, sy=sy)
        o = f"x{'+' if sx > 0 else '-'},y{'+' if sy > 0 else '-'}"
        fr = [T.sym(k, (), ("range", 0.05, 0.95)) for k in ("fa", "fb", "fc", "fd")]
        for nm, (c0, c1), (r0, r1), swap in (
                ("inner", (1, 4), (2, 3), False), ("one cell", (3, 3), (0, 0), False),
                ("reversed limits", (1, 4), (2, 3), True)):
            fx = fr[:2] if c0 != c1 else [0.25, 0.75]
            fy = fr[2:] if r0 != r1 else [0.25, 0.75]
            xs = [T.add(g.x[0], T.mul(T.add(c, f), g.dx)) for c, f in zip((c0, c1), fx)]
            ys = [T.add(g.y[0], T.mul(T.add(c, f), g.dy)) for c, f in zip((r0, r1), fy)]
            if swap:
                xs, ys = xs[::-1], ys[::-1]
            edge = lambda k: T.add(g.x[0], T.mul(k, g.dx))      # noqa: E731
            edgey = lambda k: T.add(g.y[0], T.mul(k, g.dy))     # noqa: E731
            for which in ("both", "x", "y"):
                kw, cs, rs = {}, (0, 6), (0, 4)
                if which in ("both", "x"):
                    kw["xlim"], cs = SG.farr(*xs), (c0, c1)
                if which in ("both", "y"):
                    kw["ylim"], rs = SG.farr(*ys), (r0, r1)
                want = (SG.farr(edge(cs[0]), edge(cs[1] + 1)),
                        SG.farr(edgey(rs[0]), edgey(rs[1] + 1)),
                        SG.farr(*rs, kind="i"), SG.farr(*cs, kind="i"))
                C.check(ctx, r, f"Grid.crop_extent[{nm},{which},{o}]", lift(
                    ctx, lambda l: method(l, g.build(l), "crop_extent", **{
                        k: v.copy() for k, v in kw.items()})), want)
                z = V.sym_array("z", (5, 7))
                sub = V.to_arr([[z.data[i, j] for j in range(cs[0], cs[1] + 1)]
                                for i in range(rs[0], rs[1] + 1)])

                def crop(l):
                    k = g.raster(l, z.copy())
                    l.getattr(k, "X"), l.getattr(k, "y")
                    method(l, k, "crop", **{a: v.copy() for a, v in kw.items()})
                    return tuple(l.getattr(k, a) for a in ("array", "xlim", "ylim"))
                C.check(ctx, r, f"Raster.crop[{nm},{which},{o}]", lift(ctx, crop),
                        (sub, want[0], want[1]))
        # limits beyond the grid are clipped to it
        far = [SG.farr(T.sub(g.min[k], 1), T.add(g.max[k], 1)) for k in (0, 1)]
        C.check(ctx, r, f"Grid.crop_extent[beyond the grid,{o}]", lift(
            ctx, lambda l: method(l, g.build(l), "crop_extent", far[0].copy(),
                                  far[1].copy())),
            (g.xlim, g.ylim, SG.farr(0, 4, kind="i"), SG.farr(0, 6, kind="i")))
        out = SG.farr(T.add(g.max[0], 1), T.add(g.max[0], 2))
        C.check_raises(ctx, r, f"Grid.crop_extent[outside the grid,{o}]", lift(
            ctx, lambda l: method(l, g.build(l), "crop_extent", out.copy())))
    # limits exactly on cell edges select no extra cell
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(7, 5), sx=sx, sy=sy, unit=True)
        for nm, xs, ys in (("both", (1, 3), (2, 4)), ("x", (1, 3), (2.5, 3.25)),
                           ("y", (1.25, 3.5), (0, 2)), ("outer", (2, 7), (1, 5)),
                           ("outer x", (2, 7), (1, 3))):
            kx = SG.farr(*[T.add(g.x[0], k * sx) for k in xs])
            ky = SG.farr(*[T.add(g.y[0], k * sy) for k in ys])
            cs, rs = ([math.floor(a), math.ceil(b)] for a, b in (xs, ys))
            C.check(ctx, r, f"Grid.crop_extent[on cell edges in {nm},"
                    f"x{'+' if sx > 0 else '-'}]",
                    lift(ctx, lambda l: method(l, g.build(l), "crop_extent", kx.copy(),
                                               ky.copy())),
                    (SG.farr(*[T.add(g.x[0], k * sx) for k in cs]),
                     SG.farr(*[T.add(g.y[0], k * sy) for k in rs]),
                     SG.farr(rs[0], rs[1] - 1, kind="i"),
                     SG.farr(cs[0], cs[1] - 1, kind="i")))
    # value limits
    z = V.sym_array("z", (2, 3))
    z.kind = "f"
    za, zb = T.sym("za", (), ("range", -1, 0)), T.sym("zb", (), ("range", 0, 1))
    masked = V.to_arr([[T.ite(T.land(T.app("le", za, v), T.app("le", v, zb)), v,
                              float("nan")) for v in rowv] for rowv in z.data])
    for zl in ((za, zb), (zb, za)):
        def crop(l):
            k = SG.G(size=(3, 2)).raster(l, z.copy())
            method(l, k, "crop", zlim=zl)
            return l.getattr(k, "array")
        C.check(ctx, r, f"Raster.crop[values{',reversed' if zl[0] is zb else ''}]",
                lift(ctx, crop), masked)
    # both extent and values
    g = SG.G(size=(3, 2), sx=1, sy=-1, unit=True)
    def trimmed(l):
        k = g.raster(l, z.copy())
        method(l, k, "crop", xlim=SG.farr(g.xc(1), g.xc(2)), zlim=(za, zb))
        return l.getattr(k, "array"), l.getattr(k, "xlim")
    C.check(ctx, r, "Raster.crop[extent and values]", lift(ctx, trimmed), (
        V.Arr(masked.data[:, 1:].copy(), (2, 2), "f"),
        SG.farr(T.add(g.x[0], 1), g.x[1])))
    # (integers too: they become real numbers, if any are missing)
    whole = V.to_arr([[3, -1, 0], [5, 2, 1]])
    whole.kind = "i"
    for zl in ((0, 3), (-1, 5), (0.5, 2.5)):
        def integers(l):
            k = SG.G(size=(3, 2)).raster(l, whole.copy())
            method(l, k, "crop", zlim=zl)
            return l.getattr(k, "array")
        C.check(ctx, r, f"Raster.crop[integer values,{zl}]", lift(ctx, integers), V.to_arr([
            [float(v) if zl[0] <= v <= zl[1] else float("nan") for v in row]
            for row in whole.data.tolist()]))
    # indexing
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(7, 5), sx=sx, sy=sy)
        z = V.sym_array("z", (5, 7))
        o = f"x{'+' if sx > 0 else '-'}"
        for i, j in ((slice(1, 4), slice(2, 6)), (slice(2, 4), slice(3, 5)),
                     (slice(None), slice(1, None)), (slice(0, 3), slice(-3, None)),
                     (2, slice(None)), (slice(1, 5), 4), (slice(2, 3), slice(5, 6)),
                     (slice(None, None, 2), slice(0, 6, 3)), (slice(0, 3, 2), slice(1, 5, 2)),
                     (slice(4, None, 3), slice(5, None, 2))):
            si = i if isinstance(i, slice) else slice(i, i + 1)
            sj = j if isinstance(j, slice) else slice(j, j + 1)
            ri, rj = list(range(5))[si], list(range(7))[sj]
            di, dj = si.step or 1, sj.step or 1
            xs = [T.add(g.xc(rj[0]), T.mul(-0.5 * dj, g.dx)),
                  T.add(g.xc(rj[-1]), T.mul(0.5 * dj, g.dx))]
            ys = [T.add(g.yc(ri[0]), T.mul(-0.5 * di, g.dy)),
                  T.add(g.yc(ri[-1]), T.mul(0.5 * di, g.dy))]

            def get(l):
                k = g.raster(l, z.copy())
                s = l.getitem(k, (i, j))
                return tuple(l.getattr(s, a) for a in (
                    "array", "xlim", "ylim", "x", "y"))
            C.check(ctx, r, f"Raster.__getitem__[{show(i)},{show(j)},{o}]", lift(ctx, get),
                    (V.to_arr([[z.data[a, b] for b in rj] for a in ri]), SG.farr(*xs),
                     SG.farr(*ys), SG.farr(*[g.xc(b) for b in rj]),
                     SG.farr(*[g.yc(a) for a in ri])))

        def row(l):
            s = l.getitem(g.raster(l, z.copy()), slice(1, 3))
            return l.getattr(s, "array")
        C.check(ctx, r, f"Raster.__getitem__[rows only,{o}]", lift(ctx, row),
                V.to_arr([[z.data[a, b] for b in range(7)] for a in (1, 2)]))
    tiles(ctx)


def changes(ctx):
    """Comparison, copying, resizing, shifting, snapping boxes."""
    r = "R4-construction"
    both = lambda l, g: tuple(l.getattr(g, a) for a in (        # noqa: E731
        "size", "xlim", "ylim", "x", "y", "X", "Y", "d", "min", "max"))

    def want(g):
        x, y = g.centers()
        X, Y = g.matrices()
        return (g.size, g.xlim, g.ylim, x, y, X, Y, SG.farr(g.dx, g.dy),
                SG.farr(*g.min), SG.farr(*g.max))
    cs = [T.sym(f"lim{i}", (), ("choice", (0, 1))) for i in range(8)]

    def lims(k):
        a, b, c, d = cs[k:k + 4]
        return (SG.farr(a, T.add(b, 2)), SG.farr(T.add(d, 3), c))
    same = T.land(*[T.app("eq", a, b) for a, b in zip(cs[:4], cs[4:])])

    def eq(l, a, b):
        return l.compare(ast.Eq(), a, b)
    for size, other in (((4, 3), (4, 3)), ((4, 3), (4, 2)), ((4, 3), (3, 3))):
        def grids(l):
            out = []
            for s, k in ((size, 0), (other, 4)):
                x, y = lims(k)
                out.append(l.construct(l.prog.cls("Grid"), [SG.farr(*s, kind="i")],
                                       dict(x=x, y=y)))
            return eq(l, *out)
        C.check(ctx, r, f"Grid.__eq__[{size},{other}]", lift(ctx, grids),
                same if size == other else False)
    ends = [((0, 4), (3, 0)), ((4, 0), (3, 0)), ((0, 4), (0, 3)), ((4, 0), (0, 3))]
    for a, b in itertools.product(ends, repeat=2):
        for kind, what in (("Grid", SG.farr(4, 3, kind="i")), (
                "Raster", V.sym_array("za", (3, 4)))):
            C.check(ctx, r, f"{kind}.__eq__[limits {a},{b}]", lift(ctx, lambda l: eq(l, *[
                l.construct(l.prog.cls(kind), [what.copy()], dict(
                    x=SG.farr(*x), y=SG.farr(*y))) for x, y in (a, b)])), a == b)
    za, zb = (V.sym_array(k, (2, 2), ("choice", (0, 1))) for k in ("za", "zb"))
    # equal values at most points
    zc = V.to_arr([[T.ite(T.app("lt", T.sym("dz", (), "unit"), 0.5), p, q)
                    for p, q in zip(a, b)] for a, b in zip(za.data, zb.data)])

    def rasters(l):
        out = []
        for z, k in ((za, 0), (zc, 4)):
            x, y = lims(k)
            out.append(l.construct(l.prog.cls("Raster"), [z.copy()], dict(x=x, y=y)))
        return eq(l, *out)
    C.check(ctx, r, "Raster.__eq__", lift(ctx, rasters), T.land(same, *[
        T.app("eq", a, b) for a, b in zip(za.data.flat, zc.data.flat)]))
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(4, 3), sx=sx, sy=sy)
        o = f"x{'+' if sx > 0 else '-'}"
        z = V.sym_array("z", (3, 4))
        dx, dy = T.sym("dx"), T.sym("dy")
        for filled in (False, True):
            tag = o + (",after use" if filled else "")

            def start(l, kind):
                k = g.build(l) if kind == "Grid" else g.raster(l, z.copy())
                if filled:
                    both(l, k)
                return k
            for kind in ("Grid", "Raster"):
                C.check(ctx, r, f"{kind}.copy[{tag}]", lift(
                    ctx, lambda l: both(l, method(l, start(l, kind), "copy"))), want(g))
                for kw in ({"dx": dx, "dy": dy}, {"dx": dx}, {"dy": dy}, {}):
                    def shift(l):
                        k = start(l, kind)
                        method(l, k, "shift", **kw)
                        return both(l, k)
                    C.check(ctx, r, f"{kind}.shift[{','.join(kw)};{tag}]",
                            lift(ctx, shift), want(g.shifted(**kw)))
            for scale in (0.5, 2, 1.3, 0.3):
                def resize(l):
                    k = start(l, "Grid")
                    method(l, k, "resize", scale)
                    return both(l, k)
                size = tuple(math.floor(v * scale + 0.5) for v in (4, 3))
                C.check(ctx, r, f"Grid.resize[{scale},{tag}]", lift(ctx, resize), want(
                    g.replace(nx=size[0], ny=size[1])))
        # boxes around a point
        g = SG.G(size=(7, 5), sx=sx, sy=sy, unit=True)
        off = [T.sym(k, (), ("range", 0.01, 0.49)) for k in ("ox", "oy")]
        mid = (3, 2)
        at = [T.add(z0, T.mul(s, T.add(m, f))) for z0, s, m, f in zip(
            (g.x[0], g.y[0]), (sx, sy), mid, off)]
        # edges: (position - half size) and (position + half size) rounded to an edge
        for size in ((2, 4), (3, 1), (1, 2)):
            half = [v / 2 for v in size]
            lo = [T.sub(a, h) for a, h in zip(at, half)]
            hi = [T.add(a, h) for a, h in zip(at, half)]

            def snap(v, k, how):
                z0, s = ((g.x[0], g.y[0])[k], (sx, sy)[k])
                t = T.mul(s, T.sub(v, z0))
                fl = lambda q: T.app("floor", q)    # noqa: E731
                t = fl(T.add(t, 0.5)) if how == "edges" else T.add(fl(t), 0.5)
                return T.add(z0, T.mul(s, t))
            for how, kw in (("edges", {}), ("edges", {"edges": True, "centers": False}),
                            ("centers", {"edges": False, "centers": True})):
                C.check(ctx, "R3-snapping", f"Grid.snap_box[size={size},{how},{len(kw)},"
                        f"{o}]", lift(ctx, lambda l: method(
                            l, g.build(l), "snap_box", SG.farr(*at), size, **kw)),
                        SG.farr(*[snap(v[k], k, how) for v in (lo, hi) for k in (0, 1)]))
        C.check_raises(ctx, "R3-snapping", f"Grid.snap_box[beyond the grid,{o}]", lift(
            ctx, lambda l: method(l, g.build(l), "snap_box", SG.farr(*at), (8, 2))))


def metadata(ctx):
    r = "R6-metadata"
    g = SG.G(size=(5, 4), sx=1, sy=-1, unit=True)
    nan = float("nan")
    z = V.sym_array("z", (4, 5))
    hole = z.copy()
    hole.data[0] = nan
    when = T.sym("when", (), "datetime")
    other = SG.G(size=(3, 2), sx=1, sy=-1, unit=True)
    for crs in (32633, "+proj=utm", None):
        def grid(l, op):
            k = g.build(l)
            l.setattr(k, "crs", crs)
            out = op(l, k)
            return l.getattr(k if out is None else out, "crs")

        def raster(l, op):
            k = g.raster(l, z.copy(), crs=crs, datetime=when)
            out = op(l, k)
            out = k if out is None else out
            return l.getattr(out, "crs"), l.getattr(out, "datetime")

        def call(name, *args, **kw):
            def op(l, k):
                out = method(l, k, name, *args, **kw)
                return out if name == "copy" else None
            return op

        def crop_to_data(l, k):
            l.setattr(k, "array", hole.copy())
            method(l, k, "crop_to_data")
        for nm, op in (("copy", call("copy")), ("resize", call("resize", 2)),
                       ("shift", call("shift", dx=1.5))):
            C.check(ctx, r, f"Grid.{nm}[{crs}]", lift(ctx, lambda l: grid(l, op)), crs)
        C.check(ctx, r, f"Raster.grid[{crs}]", lift(ctx, lambda l: raster(
            l, lambda l, k: V.Obj("made", {"crs": l.getattr(l.getattr(k, "grid"), "crs"),
                                           "datetime": None}))), (crs, None))
        for nm, op in (
                ("copy", call("copy")), ("shift", call("shift", dx=1.5, dz=2.0)),
                ("crop", call("crop", xlim=SG.farr(g.xc(1), g.xc(3)))),
                ("crop[values]", call("crop", zlim=(-1, 1))),
                ("__getitem__", lambda l, k: l.getitem(k, (slice(1, 3), slice(0, 2)))),
                ("resample", lambda l, k: method(l, k, "resample", other.build(l))),
                ("fill_circle", call("fill_circle", (g.xc(2), g.yc(1)), 1.2)),
                ("crop_to_data", crop_to_data)):
            C.check(ctx, r, f"Raster.{nm}[{crs}]", lift(
                ctx, lambda l: raster(l, op)), (crs, when))


def show(s):
    if not isinstance(s, slice):
        return str(s)
    return ":".join("" if v is None else str(v) for v in (s.start, s.stop, s.step)
                    )[: None if s.step else -1]


def tiles(ctx):
    for size, tile, overlap in (
            ((7, 5), (3, 2), (0, 0)), ((7, 5), (3, 2), (1, 1)), ((12, 9), (4, 3), (2, 1)),
            ((12, 9), (4, 3), (0, 2)), ((10, 4), (4, 4), (1, 0)), ((5, 5), (20, 20), (1, 1)),
            ((16, 3), (2, 3), (1, 1)), ((6, 11), (6, 3), (3, 2))):
        g = SG.G(size=size)
        out = lift(ctx, lambda l: method(l, g.build(l), "tile_indices", tile, overlap))
        nm = f"Grid.tile_indices[size={size},tile={tile},overlap={overlap}]"
        if out.failed or out.error or out.taint:
            ctx.oblige("R5-subsets", nm, False if out.error and C.no_raise(out).ok is False
                       else None, str(out.failed or out.error or out.taint[0]))
            continue
        ok, why = tile_rule(out.value, size, tile, overlap)
        ctx.oblige("R5-subsets", nm, ok, why)


def tile_rule(v, size, tile, overlap):
    """Tiles cover the grid; tiles share exactly the overlap with the previous tile."""
    try:
        items = [tuple((int(s.start), int(s.stop), s.step) for s in t) for t in v]
    except (TypeError, ValueError, AttributeError):
        return None, "not lifted to concrete slices"
    for a, name in ((0, "rows"), (1, "columns")):
        n, ov = (size[1], overlap[1]) if a == 0 else (size[0], overlap[0])
        spans = sorted({t[a][:2] for t in items})
        if any(t[a][2] not in (None, 1) for t in items):
            return False, f"tiles skip {name}"
        if spans[0][0] != 0 or spans[-1][1] != n:
            return False, f"tiles do not cover all {name}: {spans}"
        for p, q in zip(spans, spans[1:]):
            if p[1] - q[0] != ov:
                return False, f"neighbouring tiles share {p[1] - q[0]} {name}, not {ov}"
        if any(p[1] <= p[0] for p in spans):
            return False, "empty tile"
        want = max(1, n // max(1, round(n / tile[a ^ 1])))
        big = max(q[1] - p[1] for p, q in zip([(0, 0)] + spans, spans))
        if big > max(2 * tile[a ^ 1], 1) and want < n:
            return False, f"tiles of {big} {name} instead of {tile[a ^ 1]}"
    if len(set(items)) != len(items):
        return False, "a tile is repeated"
    if len(items) != len({t[0] for t in items}) * len({t[1] for t in items}):
        return False, "tiles do not cover the grid"
    return True, f"{len(items)} tiles"
