"""C10: image frames, boxes, grids and lines are computed exactly."""
import itertools

from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method


def helper(ctx, name):
    return ctx.prog.func("helpers", name)


def flat(v):
    if isinstance(v, V.Arr):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(flat(x) for x in v)
    return v


def call(ctx, name, *args, **kw):
    f = helper(ctx, name)
    return lift(ctx, lambda l: l.call_func(f, [flat(a) for a in args],
                                           {k: flat(v) for k, v in kw.items()}))


def steps(lo, hi, step, snap):
    """lo <= snap + i * step <= hi, ascending."""
    import math
    first = math.ceil((lo - snap) / step)
    out = []
    i = first
    while snap + i * step <= hi:
        out.append(snap + i * step)
        i += 1
    return out


def ring(nx, ny, sx=1, sy=1):
    us = [i * sx for i in range(nx // sx + 1)]
    vs = [i * sy for i in range(ny // sy + 1)]
    pts = [(u, 0) for u in us] + [(us[-1], v) for v in vs[1:-1]]
    pts += [(u, vs[-1]) for u in us[::-1]] + [(0, v) for v in vs[::-1][1:-1]]
    return V.to_arr([[float(a), float(b)] for a, b in pts])


def minmax(points):
    """Box of a list of points."""
    lo, hi = list(points[0]), list(points[0])
    for p in points[1:]:
        lo = [T.app("min2", a, b) for a, b in zip(lo, p)]
        hi = [T.app("max2", a, b) for a, b in zip(hi, p)]
    return V.to_arr(lo + hi)


def run(ctx):
    ctx.rule("R1-frame", "image edges, grids and pixels are those of the image size, "
             "and the view box and view polygon are the projections of the image edges "
             "and of the row through the principal point, with the camera position")
    ctx.rule("R2-boxes", "boxes are (minima, maxima); membership, intersection, polygon "
             "and bounding box follow")
    ctx.rule("R3-grids", "grids span the box at the given step, aligned to the given "
             "point, x varying fastest")
    ctx.rule("R4-lines", "points along a line are at the requested distances")
    ctx.rule("R5-binning", "gridding points averages the values that fall in each cell "
             "and leaves other cells alone")
    for nx, ny in ((4, 3), (2, 2), (3, 5)):
        cam = S.Cam("none", sizes=(nx, ny))
        tag = f"image size {nx} x {ny}"
        C.check(ctx, "R1-frame", f"Camera.edges[{tag}]", lift(
            ctx, lambda l: method(l, cam.build(l), "edges")), ring(nx, ny))
        d = T.sym("depth", (), "pos")
        pts = [[cam.xyz.data[j] for j in range(3)]]
        for u, v in itertools.product(range(nx + 1), range(ny + 1)):
            if u in (0, nx) or v in (0, ny):
                pts.append(S.unproject(cam, (u, v), False, d))
        C.check(ctx, "R1-frame", f"Camera.viewbox[{tag}]", lift(
            ctx, lambda l: method(l, cam.build(l), "viewbox", d)), minmax(pts))
        row = T.add(T.div(ny, 2), cam.c.data[1])
        C.check(ctx, "R1-frame", f"Camera.viewpoly[{tag}]", lift(
            ctx, lambda l: method(l, cam.build(l), "viewpoly", d)), V.to_arr(
                [pts[0], S.unproject(cam, (0, row), False, d),
                 S.unproject(cam, (nx, row), False, d), pts[0]]))
        gx, gy = [i + 0.5 for i in range(nx)], [i + 0.5 for i in range(ny)]
        C.check(ctx, "R1-frame", f"Camera.grid[{tag}]", lift(
            ctx, lambda l: method(l, cam.build(l), "grid")),
            V.to_arr([[x, y] for y in gy for x in gx]))
    cam = S.Cam("none", sizes=(6, 4))
    C.check(ctx, "R1-frame", "Camera.grid[step 2, snap default]", lift(
        ctx, lambda l: method(l, cam.build(l), "grid", 2)), V.to_arr(
            [[x, y] for y in (0.5, 2.5) for x in (0.5, 2.5, 4.5)]))
    C.check(ctx, "R1-frame", "Camera.edges[steps 3, 2]", lift(
        ctx, lambda l: method(l, cam.build(l), "edges", (3, 2))), ring(6, 4, 3, 2))
    C.check(ctx, "R1-frame", "Camera.edges[step 2]", lift(
        ctx, lambda l: method(l, cam.build(l), "edges", 2)), ring(6, 4, 2, 2))
    C.check(ctx, "R1-frame", "Camera.grid[steps 2, 1, snap 1, 0.25, vectors]", lift(
        ctx, lambda l: method(l, cam.build(l), "grid", step=(2, 1), snap=(1, 0.25),
                              mode="vectors")),
        (V.to_arr([float(x) for x in steps(0, 6, 2, 1)]),
         V.to_arr([float(x) for x in steps(0, 4, 1, 0.25)])))
    # with distortion, the extremes may lie anywhere along the edges
    for nm in ("k1", "small"):
        cam = S.Cam(nm, sizes=(3, 2))
        d = T.sym("depth", (), "pos")

        def bounds(l):
            c = cam.build(l)
            P = method(l, c, "uv_to_xyz", ring(3, 2), directions=False, depth=d)
            pts = [list(cam.xyz.data)] + [list(r) for r in P.data]
            return method(l, c, "viewbox", d), minmax(pts)
        out = lift(ctx, lambda l: bounds(l)[0])
        want = lift(ctx, lambda l: bounds(l)[1])
        C.check(ctx, "R1-frame", f"Camera.viewbox[distortion {nm}]", out,
                want.value if want.failed is None else None)
    cam = S.Cam("none", sizes=(6, 4))
    C.check(ctx, "R1-frame", "Camera.inframe[on the edges]", lift(
        ctx, lambda l: method(l, cam.build(l), "inframe", V.to_arr(
            [[0.0, 2.0], [6.0, 2.0], [3.0, 0.0], [3.0, 4.0], [6.0, 4.0], [-0.01, 2.0],
             [6.01, 2.0], [3.0, -0.01], [3.0, 4.01], [float("nan"), 2.0]]))),
        V.to_arr([True] * 5 + [False] * 5))
    # pixels: column = floor(u), row = floor(v); outside points are ignored
    cam = S.Cam("none", sizes=(3, 2))
    val = S.vec("val", 6)
    uv = V.to_arr([[0.5, 0.5], [2.5, 1.5], [2.9, 1.2], [-0.5, 0.5], [1.0, 0.0],
                   [1.5, 5.0]])
    nan = float("nan")
    img = [[val.data[0], val.data[4], nan], [nan, nan, T.div(T.add(
        val.data[1], val.data[2]), 2)]]
    C.check(ctx, "R5-binning", "Camera.rasterize", lift(ctx, lambda l: method(
        l, cam.build(l), "rasterize", uv.copy(), val.copy())), V.to_arr(img))
    two = V.sym_array("two", (6, 2))
    C.check(ctx, "R5-binning", "Camera.rasterize[two layers]", lift(
        ctx, lambda l: method(l, cam.build(l), "rasterize", uv.copy(), two.copy())),
        V.to_arr([[list(two.data[0]), list(two.data[4]), [nan, nan]], [
            [nan, nan], [nan, nan], [T.div(T.add(two.data[1, j], two.data[2, j]), 2)
                                     for j in range(2)]]]))

    # -- boxes ---------------------------------------------------------------------
    n = T.dim("n")
    P = V.sym_array("P", (n, 3), ("choice", (-2, -1, 0, 1, 2)))
    lo, hi = S.vec("lo", 3, ("choice", (-2, -1, 0))), S.vec("hi", 3, ("choice", (0, 1, 2)))
    box = V.to_arr(list(lo.data) + list(hi.data))
    ok = True
    for i in range(3):
        ok = T.land(ok, T.app("le", lo.data[i], P.data[0, i]),
                    T.app("le", P.data[0, i], hi.data[i]))
    C.check(ctx, "R2-boxes", "helpers.in_box[3-d]", call(ctx, "in_box", P, box),
            S.col(n, ok, "b"))
    C.check(ctx, "R2-boxes", "helpers.unravel_box", call(ctx, "unravel_box", box),
            V.to_arr([list(lo.data), list(hi.data)]))
    pts = S.vec("q", 6)
    C.check(ctx, "R2-boxes", "helpers.bounding_box", call(
        ctx, "bounding_box", V.to_arr([list(pts.data[:2]), list(pts.data[2:4]),
                                       list(pts.data[4:])])),
            minmax([pts.data[:2], pts.data[2:4], pts.data[4:]]))
    b = S.vec("b", 4)
    x0, y0, x1, y1 = b.data
    C.check(ctx, "R2-boxes", "helpers.box_to_polygon", call(ctx, "box_to_polygon", b),
            V.to_arr([[x0, y0], [x0, y1], [x1, y1], [x1, y0], [x0, y0]]))
    for m, dom in ((2, 2), (3, 3)):
        boxes = []
        for i in range(m):
            a = S.vec(f"ba{i}", dom, ("range", 0, 1))
            z = S.vec(f"bz{i}", dom, ("range", 2, 3))
            boxes.append((a, z))
        want = []
        for k, op in ((0, "max2"), (1, "min2")):
            for j in range(dom):
                v = boxes[0][k].data[j]
                for bb in boxes[1:]:
                    v = T.app(op, v, bb[k].data[j])
                want.append(v)
        arg = [V.to_arr(list(a.data) + list(z.data)) for a, z in boxes]
        C.check(ctx, "R2-boxes", f"helpers.intersect_boxes[{m} boxes]",
                call(ctx, "intersect_boxes", arg), V.to_arr(want))
    ia, iz = S.vec("ia", 2, ("range", 0, 1)), S.vec("iz", 2, ("range", 2, 3))
    far = T.sym("far", (), ("range", 4, 5))
    for nm, second in (("x", [far, 0.0, T.add(far, 1), 3.0]),
                       ("y", [0.0, far, 3.0, T.add(far, 1)]),
                       ("touching", [iz.data[0], 0.0, 9.0, 3.0])):
        C.check_raises(ctx, "R2-boxes", f"helpers.intersect_boxes[disjoint, {nm}]",
                       call(ctx, "intersect_boxes", [
                           V.to_arr(list(ia.data) + list(iz.data)), V.to_arr(second)]))

    # -- grids -----------------------------------------------------------------------
    for nm, bx, step, snap in (("plain", (0, 0, 3, 2), 1, None),
                               ("two steps", (0, 0, 4, 3), (2, 1), None),
                               ("snapped", (0, 0, 4, 3), 1, (0.5, 0.25)),
                               ("snap outside", (1, 2, 5, 6), (2, 3), (-2, 0)),
                               ("offset", (-1.5, 2, 2, 4), (0.5, 1), (0, 0))):
        st = step if isinstance(step, tuple) else (step,) * 2
        sn = snap if snap is not None else bx[:2]
        xs = [float(v) for v in steps(bx[0], bx[2], st[0], sn[0])]
        ys = [float(v) for v in steps(bx[1], bx[3], st[1], sn[1])]
        want = {"vectors": (V.to_arr(xs), V.to_arr(ys)),
                "grids": (V.to_arr([xs for _ in ys]), V.to_arr([[y] * len(xs)
                                                                for y in ys])),
                "points": V.to_arr([[x, y] for y in ys for x in xs])}
        for mode, w in want.items():
            kw = {"mode": mode}
            if snap is not None:
                kw["snap"] = snap
            C.check(ctx, "R3-grids", f"helpers.box_to_grid[{nm}, {mode}]", call(
                ctx, "box_to_grid", bx, step, **kw), w)
    C.check(ctx, "R3-grids", "helpers.box_to_grid[1-d]", call(
        ctx, "box_to_grid", (1, 4), 1.5, mode="vectors"), (V.to_arr([1.0, 2.5, 4.0]),))
    C.check(ctx, "R3-grids", "helpers.box_to_grid[3-d]", call(
        ctx, "box_to_grid", (0, 1, 2, 2, 2, 2.5), 1, mode="vectors"),
        (V.to_arr([0.0, 1.0, 2.0]), V.to_arr([1.0, 2.0]), V.to_arr([2.0])))
    C.check_raises(ctx, "R3-grids", "helpers.box_to_grid[unsupported mode]", call(
        ctx, "box_to_grid", (0, 0, 3, 2), 1, mode="cells"))
    gx, gy = V.sym_array("GX", (2, 3)), V.sym_array("GY", (2, 3))
    C.check(ctx, "R3-grids", "helpers.grid_to_points", call(
        ctx, "grid_to_points", (gx, gy)), V.to_arr(
            [[gx.data[i, j], gy.data[i, j]] for i in range(2) for j in range(3)]))

    # -- lines -----------------------------------------------------------------------
    vv = V.sym_array("vv", (3, 2))
    xs = [0.0, 2.0, 5.0]

    def at(j, s, x=xs, v=vv):
        for i in range(len(x) - 1):
            if x[i] <= s <= x[i + 1]:
                t = (s - x[i]) / (x[i + 1] - x[i])
                return T.add(T.mul(1 - t, v.data[i, j]), T.mul(t, v.data[i + 1, j]))
        return v.data[0, j] if s < x[0] else v.data[len(x) - 1, j]

    def line(ss):
        return V.to_arr([[at(j, s) for j in range(2)] for s in ss])
    C.check(ctx, "R4-lines", "helpers.interpolate_line[xi]", call(
        ctx, "interpolate_line", vv, x=V.to_arr(xs), xi=V.to_arr([0.5, 2.0, 4.0, 5.0])),
        line([0.5, 2.0, 4.0, 5.0]))
    C.check(ctx, "R4-lines", "helpers.interpolate_line[n]", call(
        ctx, "interpolate_line", vv, x=V.to_arr(xs), n=5),
        line([0, 1.25, 2.5, 3.75, 5]))
    C.check(ctx, "R4-lines", "helpers.interpolate_line[dx]", call(
        ctx, "interpolate_line", vv, x=V.to_arr(xs), dx=1.0), line(range(6)))
    for dx, n in ((1.5, 3), (0.7, 7), (4.0, 1), (1.3, 4)):
        C.check(ctx, "R4-lines", f"helpers.interpolate_line[dx={dx}]", call(
            ctx, "interpolate_line", vv, x=V.to_arr(xs), dx=dx),
            line([5 * k / n for k in range(n + 1)]))
        C.check(ctx, "R4-lines", f"helpers.interpolate_line[dx={dx}, descending]", call(
            ctx, "interpolate_line", V.to_arr([[vv.data[i, j] for j in range(2)]
                                               for i in (2, 1, 0)]),
            x=V.to_arr(xs[::-1]), dx=dx), line([5 - 5 * k / n for k in range(n + 1)]))
    C.check(ctx, "R4-lines", "helpers.interpolate_line[outside, endpoints]", call(
        ctx, "interpolate_line", vv, x=V.to_arr(xs), xi=V.to_arr([-1.0, 1.0, 9.0]),
        error=False), line([-1.0, 1.0, 9.0]))
    C.check(ctx, "R4-lines", "helpers.interpolate_line[outside, fill]", call(
        ctx, "interpolate_line", vv, x=V.to_arr(xs), xi=V.to_arr([-1.0, 1.0, 9.0]),
        error=False, fill=-7.0), V.to_arr([[-7.0, -7.0], [at(0, 1.0), at(1, 1.0)],
                                           [-7.0, -7.0]]))
    for nm, kw in (("fill", {"error": False, "fill": -7.0}), ("error", {})):
        C.check(ctx, "R4-lines", f"helpers.interpolate_line[ends, {nm}]", call(
            ctx, "interpolate_line", vv, x=V.to_arr(xs), xi=V.to_arr([0.0, 1.0, 5.0]),
            **kw), line([0.0, 1.0, 5.0]))
    rev = V.to_arr([[vv.data[i, j] for j in range(2)] for i in (2, 1, 0)])
    C.check(ctx, "R4-lines", "helpers.interpolate_line[descending distances]", call(
        ctx, "interpolate_line", rev, x=V.to_arr(xs[::-1]), xi=V.to_arr([0.5, 4.0])),
        line([0.5, 4.0]))
    for nm, v, k in (("", vv, 1), ("descending, ", rev, -1)):
        C.check(ctx, "R4-lines", f"helpers.interpolate_line[{nm}outside, first and last]",
                call(ctx, "interpolate_line", v, x=V.to_arr(xs[::k]),
                     xi=V.to_arr([-1.0, 1.0, 9.0][::k]), error=False, fill=(-7.0, 8.0)),
                V.to_arr([[-7.0, -7.0], [at(0, 1.0), at(1, 1.0)], [8.0, 8.0]]))
    for nm, xi in (("before", [-1.0, 1.0]), ("after", [1.0, 6.0])):
        C.check_raises(ctx, "R4-lines", f"helpers.interpolate_line[{nm} the line]", call(
            ctx, "interpolate_line", vv, x=V.to_arr(xs), xi=V.to_arr(xi)))
    w = V.to_arr([[0.0, 0.0], [3.0, 4.0], [3.0, 6.0]])
    C.check(ctx, "R4-lines", "helpers.interpolate_line[cumulative distance]", call(
        ctx, "interpolate_line", w, xi=V.to_arr([2.5, 5.0, 6.0])),
        V.to_arr([[1.5, 2.0], [3.0, 4.0], [3.0, 5.0]]))

    w = V.to_arr([[0.0, 0.0, 0.0], [2.0, 3.0, 6.0], [2.0, 3.0, 10.0]])
    C.check(ctx, "R4-lines", "helpers.interpolate_line[cumulative distance, 3-d]", call(
        ctx, "interpolate_line", w, xi=V.to_arr([3.5, 9.0])),
        V.to_arr([[1.0, 1.5, 3.0], [2.0, 3.0, 8.0]]))
    C.check(ctx, "R4-lines", "helpers.interpolate_line[cumulative distance, 3-d, dx]",
            call(ctx, "interpolate_line", w, dx=5.5), V.to_arr(
                [[0.0, 0.0, 0.0], [11.0 / 7, 16.5 / 7, 33.0 / 7], [2.0, 3.0, 10.0]]))

    # -- binning ---------------------------------------------------------------------
    v3 = S.vec("v3", 3)
    C.check(ctx, "R5-binning", "helpers.rasterize_points[shape]", call(
        ctx, "rasterize_points", V.to_arr([1, 0, 1]), V.to_arr([2, 0, 2]), v3,
        shape=(2, 3)), (V.to_arr([0, 5]), V.to_arr(
            [v3.data[1], T.div(T.add(v3.data[0], v3.data[2]), 2)])))
    v6 = V.sym_array("v6", (3, 2))
    C.check(ctx, "R5-binning", "helpers.rasterize_points[two layers]", call(
        ctx, "rasterize_points", V.to_arr([1, 0, 1]), V.to_arr([2, 0, 2]), v6,
        shape=(2, 3)), (V.to_arr([0, 5]), V.to_arr(
            [list(v6.data[1]), [T.div(T.add(v6.data[0, j], v6.data[2, j]), 2)
                                for j in range(2)]])))

    def into(l):
        a = V.sym_array("old", (2, 3))
        l.call_func(helper(ctx, "rasterize_points"), [
            V.to_arr([1, 0, 1]), V.to_arr([2, 0, 2]), v3.copy()], {"a": a})
        return a
    old = V.sym_array("old", (2, 3))
    want = old.copy()
    want.data[0, 0] = v3.data[1]
    want.data[1, 2] = T.div(T.add(v3.data[0], v3.data[2]), 2)
    C.check(ctx, "R5-binning", "helpers.rasterize_points[into array]", lift(ctx, into),
            want)

    def into2(l):
        a = V.sym_array("old2", (2, 3, 2))
        l.call_func(helper(ctx, "rasterize_points"), [
            V.to_arr([1, 0, 1]), V.to_arr([2, 0, 2]), v6.copy()], {"a": a})
        return a
    want = V.sym_array("old2", (2, 3, 2))
    for j in range(2):
        want.data[0, 0, j] = v6.data[1, j]
        want.data[1, 2, j] = T.div(T.add(v6.data[0, j], v6.data[2, j]), 2)
    C.check(ctx, "R5-binning", "helpers.rasterize_points[into layered array]",
            lift(ctx, into2), want)
    px1, py1 = S.vec("px1", 3), S.vec("py1", 2)
    C.check(ctx, "R4-lines", "helpers.pairwise_distance[1-d]", call(
        ctx, "pairwise_distance", px1, py1), V.to_arr(
            [[T.app("abs", T.sub(a, b)) for b in py1.data] for a in px1.data]))
    x, y = V.sym_array("px", (3, 2)), V.sym_array("py", (2, 2))
    C.check(ctx, "R4-lines", "helpers.pairwise_distance", call(
        ctx, "pairwise_distance", x, y), V.to_arr(
            [[T.sqrt(S.dot(*[[T.sub(x.data[i, k], y.data[j, k]) for k in range(2)]] * 2))
              for j in range(2)] for i in range(3)]))
    C.check(ctx, "R4-lines", "helpers.sorted_nearest", call(
        ctx, "sorted_nearest", V.to_arr([0.0, 1.0, 4.0, 9.0]),
        V.to_arr([-3.0, 0.4, 0.6, 3.0, 6.0, 7.0, 20.0])),
        V.to_arr([0, 0, 1, 2, 2, 3, 3]))
    ctx.need("R1-frame", 6)
    ctx.need("R3-grids", 6)
    ctx.assumptions += [
        "real arithmetic; numpy semantics as tabulated in glint/vg",
        "frame and grid obligations are decided for the listed sizes and steps, for all "
        "other parameters and point values",
    ]
