"""C28: lines split, clipped to boxes, rasterized, and matched to image points."""
import itertools
import math

from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method
from .c22 import View

NAN = float("nan")


def helper(l, name, *args, **kwargs):
    return l.call_func(l.prog.func("helpers", name), list(args), kwargs)


def run(ctx):
    ctx.rule("R1-split", "arrays are split where the mask changes, joined at the ends if "
             "circular, and the groups of the value asked for are returned")
    ctx.rule("R2-boxes", "rays enter and leave boxes where they are in all of its extents, "
             "ahead of the origin")
    ctx.rule("R3-clipped", "the parts of lines in a box end on its boundary and keep their "
             "vertices and measures")
    ctx.rule("R4-cells", "cells along a line between two cells are those nearest to it, one "
             "for each step, from start to end, and those of a circle are nearest to it")
    ctx.rule("R5-matched", "image points are matched to the nearest point of the world "
             "lines that are in view")
    splits(ctx)
    boxes(ctx)
    clipped(ctx)
    cells(ctx)
    circles(ctx)
    matched(ctx)
    ctx.need("R1-split", 2)
    ctx.need("R2-boxes", 2)


# -- splits -------------------------------------------------------------------------------
def groups(mask, circular, include):
    """Groups of positions with the same mask."""
    out = []
    for i, m in enumerate(mask):
        if out and mask[i - 1] == m:
            out[-1].append(i)
        else:
            out.append([i])
    if circular and len(out) > 1 and mask[0] == mask[-1]:
        out[0] = out.pop() + out[0]
    return [g for g in out if include == "all" or mask[g[0]] is (include == "true")]


def splits(ctx):
    r = "R1-split"
    for n in (1, 2, 3, 4, 5):
        for mask in itertools.product((True, False), repeat=n):
            if n == 5 and sum(mask) not in (2, 3):
                continue
            a = V.sym_array("a", (n,))
            for circular in (False, True):
                for include in ("all", "true", "false"):
                    want = groups(mask, circular, include)

                    def body(l):
                        out = helper(l, "boolean_split", a.copy(), V.to_arr(list(mask)),
                                     circular=circular, include=include)
                        return [list(V.to_arr(x).data) for x in l.iterate(out)]
                    t = "".join("01"[m] for m in mask)
                    C.check(ctx, r, f"boolean_split[{t},{circular},{include}]",
                            lift(ctx, body), [[a.data[i] for i in g] for g in want])
    mask = (True, True, False, True)
    for axis in (0, 1):
        b = V.sym_array("b", (4, 2) if axis == 0 else (2, 4))
        for circular in (False, True):
            def body2(l):
                kw = {} if axis == 0 else {"axis": axis}
                out = helper(l, "boolean_split", b.copy(), V.to_arr(list(mask)),
                             circular=circular, **kw)
                return [V.to_arr(x).data.tolist() for x in l.iterate(out)]
            want = [(b.data[g] if axis == 0 else b.data[:, g]).tolist()
                    for g in groups(mask, circular, "all")]
            C.check(ctx, r, f"boolean_split[axis {axis},{circular}]", lift(ctx, body2), want)


# -- boxes --------------------------------------------------------------------------------
def through(origin, d, lo, hi):
    """Multiples of a direction at which a ray enters and leaves a box, as numbers."""
    t0, t1 = -math.inf, math.inf
    for o, v, a, b in zip(origin, d, lo, hi):
        if v == 0:
            if not a <= o <= b:
                return NAN, NAN
            continue
        p, q = sorted(((a - o) / v, (b - o) / v))
        t0, t1 = max(t0, p), min(t1, q)
    if t0 > t1:
        return NAN, NAN
    return (t0 if t0 >= 0 else NAN), (t1 if t1 >= 0 else NAN)


def symbolic(origin, d, lo, hi):
    t0 = t1 = None
    for o, v, a, b in zip(origin, d, lo, hi):
        p, q = T.div(T.sub(a, o), v), T.div(T.sub(b, o), v)
        p, q = T.app("min2", p, q), T.app("max2", p, q)
        t0 = p if t0 is None else T.app("max2", t0, p)
        t1 = q if t1 is None else T.app("min2", t1, q)
    hit = T.app("le", t0, t1)
    return tuple(T.ite(T.land(hit, T.app("le", 0, t)), t, NAN) for t in (t0, t1))


def boxes(ctx):
    r = "R2-boxes"
    for nd in (2, 3):
        o = [T.sym(f"o{i}", (), ("range", -1.5, 2.5)) for i in range(nd)]
        lo = [T.sym(f"lo{i}", (), ("range", -0.5, 0.5)) for i in range(nd)]
        hi = [T.sym(f"hi{i}", (), ("range", 0.6, 1.5)) for i in range(nd)]
        for signs in itertools.product((1, -1), repeat=nd):
            ds = [[T.mul(s, T.sym(f"d{k}{i}", (), ("range", 0.1, 2.0)))
                   for i, s in enumerate(signs)] for k in range(2)]
            pairs = [symbolic(o, d, lo, hi) for d in ds]
            tag = f"{nd}d," + "".join("-+"[s > 0] for s in signs)

            def rel(l):
                return list(l.iterate(helper(
                    l, "intersect_rays_box", V.to_arr(o), V.to_arr(ds), V.to_arr(lo + hi),
                    t=True)))
            C.check(ctx, r, f"intersect_rays_box[{tag},multiples]", lift(ctx, rel), [
                V.to_arr([[p[k]] for p in pairs]) for k in range(2)])

            def absolute(l):
                return list(l.iterate(helper(
                    l, "intersect_rays_box", tuple(o), V.to_arr(ds), tuple(lo + hi))))
            C.check(ctx, r, f"intersect_rays_box[{tag},points]", lift(ctx, absolute), [
                V.to_arr([[T.add(o[i], T.mul(p[k], d[i])) for i in range(nd)]
                          for p, d in zip(pairs, ds)]) for k in range(2)])
    # rays parallel to the axes, also in the planes of the faces
    for nd in (2, 3):
        lo, hi = [0.0, -1.0, 0.5][:nd], [2.0, 1.0, 3.0][:nd]
        for o in itertools.product((-1.0, 0.0, 1.5, 2.0, 4.0), (-1.0, 0.25, 3.0),
                                   *[(0.5, 2.0)] * (nd - 2)):
            ds = [[s if i == k else 0.0 for i in range(nd)] for k in range(nd)
                  for s in (1.0, -2.0)] + [[1.0, -0.5, 0.0][:nd]]
            want = [through(o, d, lo, hi) for d in ds]

            def flat(l):
                return list(l.iterate(helper(
                    l, "intersect_rays_box", tuple(o), V.to_arr(ds), tuple(lo + hi),
                    t=True)))
            C.check(ctx, r, f"intersect_rays_box[{nd}d,along axes,{o}]", lift(ctx, flat), [
                V.to_arr([[p[k]] for p in want]) for k in range(2)])
            for d in ds if nd == 2 else ds[:3]:
                t = [t for t in through(o, d, lo, hi) if t == t]
                t = min(t) if t else None

                def edge(l):
                    return helper(l, "intersect_edge_box", tuple(o), tuple(d),
                                  tuple(lo + hi))
                C.check(ctx, r, f"intersect_edge_box[{o},{d}]", lift(ctx, edge),
                        t if t is not None and 0 < t < 1 else None)
    for tag, o, d in (
            ("in", [("range", -1.5, -1.1), ("range", 0.2, 0.4)],
             [("range", 1.6, 2.0), ("range", -0.1, 0.1)]),
            ("out", [("range", 0.2, 0.8), ("range", 0.2, 0.8)],
             [("range", -0.1, 0.1), ("range", 1.1, 2.0)]),
            ("within", [("range", 0.2, 0.8), ("range", 0.2, 0.8)],
             [("range", -0.1, 0.1), ("range", -0.1, 0.1)]),
            ("past", [("range", -2.0, -1.1), ("range", -2.0, -1.1)],
             [("range", 4.0, 5.0), ("range", -0.5, 0.9)])):
        o = [T.sym(f"e{i}", (), v) for i, v in enumerate(o)]
        d = [T.sym(f"s{i}", (), v) for i, v in enumerate(d)]
        want = {"in": T.div(T.mul(-1, o[0]), d[0]),
                "out": T.div(T.sub(1, o[1]), d[1])}.get(tag)

        def edge2(l):
            return helper(l, "intersect_edge_box", V.to_arr(o), V.to_arr(d), (0, 0, 1, 1))
        C.check(ctx, r, f"intersect_edge_box[{tag}]", lift(ctx, edge2), want)


# -- clipped ------------------------------------------------------------------------------
def inside(p, lo, hi):
    return all(a <= v <= b for v, a, b in zip(p, lo, hi))


def clip(line, lo, hi, nd):
    """Parts of a line in a box, from the vertices in it."""
    out, part = [], None
    for k, p in enumerate(line):
        if inside(p[:nd], lo, hi):
            if part is None:
                part = []
                if k:
                    part += cut(line[k - 1], p, lo, hi, nd)
            part.append(list(p))
        elif part is not None:
            part += cut(line[k - 1], p, lo, hi, nd)
            out.append(part)
            part = None
    if part is not None:
        out.append(part)
    return out


def cut(p, q, lo, hi, nd):
    d = [T.sub(b, a) for a, b in zip(p, q)]
    t = [t for t in through(p[:nd], d[:nd], lo, hi) if t == t]
    t = min(t) if t else NAN
    return [[T.add(a, T.mul(t, v)) for a, v in zip(p, d)]] if 0 < t < 1 else []


def clipped(ctx):
    r = "R3-clipped"
    box = ([0.0, 0.0], [2.0, 1.0])
    lines = {
        "in": [(0.2, 0.3), (1.1, 0.4), (1.9, 0.9)],
        "out": [(-1.0, 0.3), (-0.5, 3.0), (4.0, 3.0)],
        "enters": [(-1.0, 0.3), (-0.5, 0.4), (1.0, 0.7), (1.5, 0.2)],
        "leaves": [(1.0, 0.7), (1.5, 0.2), (1.7, -0.9), (3.0, -2.0)],
        "crosses": [(-1.0, 0.3), (1.0, 0.7), (1.5, 0.2), (1.7, -0.9)],
        "twice": [(0.5, 0.5), (2.5, 0.6), (2.6, 0.2), (1.5, 0.1), (1.4, 2.0)],
        "three": [(-1.0, 0.2), (0.5, 0.4), (0.6, 3.0), (1.0, 0.9), (1.2, -0.4),
                  (1.6, 0.3), (3.0, 0.8)],
        "touches": [(-1.0, 0.5), (0.0, 0.5), (-1.0, 0.8)],
        "on a side": [(0.0, -1.0), (0.0, 0.4), (0.0, 2.0)],
        "on another": [(3.0, 1.0), (1.0, 1.0), (-1.0, 1.0)],
        "jumps over": [(-1.0, 0.5), (3.0, 0.5)],
        "corner": [(-1.0, -1.0), (0.5, 0.5), (2.5, 1.5)],
        "one vertex": [(0.3, 0.2)],
    }
    for tag, line in lines.items():
        for kind in ("2d", "measured", "3d", "3d,measured"):
            nd = 3 if "3d" in kind else 2
            pts = [list(p) + [0.2 + 0.13 * k] * (nd - 2) + (
                [T.sym(f"m{k}")] if "measured" in kind else [])
                for k, p in enumerate(line)]
            lo, hi = box[0] + [0.1] * (nd - 2), box[1] + [0.75] * (nd - 2)
            want = clip(pts, lo, hi, nd)

            def body(l):
                out = helper(l, "clip_polyline_box", V.to_arr(pts), tuple(lo + hi),
                             **({"t": True} if "measured" in kind else {}))
                return [V.to_arr(x).data.tolist() for x in l.iterate(out)]
            C.check(ctx, r, f"clip_polyline_box[{tag},{kind}]", lift(ctx, body), want)
    # unknown vertices, measures and box
    num = lambda n, a, b: T.sym(n, (), ("range", a, b))  # noqa: E731
    x0, x1 = num("x0", -0.2, 0.2), num("x1", 1.8, 2.2)
    y0, y1 = num("y0", -0.2, 0.2), num("y1", 0.9, 1.3)
    p = [[num("ax", -3.0, -1.0), num("ay", 0.3, 0.5), T.sym("am")],
         [num("bx", 0.4, 0.9), num("by", 0.4, 0.6), T.sym("bm")],
         [num("cx", 1.0, 1.5), num("cy", 0.3, 0.7), T.sym("cm")],
         [num("dx", 1.0, 1.2), num("dy", -3.0, -1.0), T.sym("dm")]]

    def unknown(l):
        out = helper(l, "clip_polyline_box", V.to_arr(p), V.to_arr([x0, y0, x1, y1]),
                     t=True)
        return [V.to_arr(x).data.tolist() for x in l.iterate(out)]

    def at(a, b, t):
        return [T.add(u, T.mul(t, T.sub(v, u))) for u, v in zip(a, b)]
    t0 = T.div(T.sub(x0, p[0][0]), T.sub(p[1][0], p[0][0]))
    t1 = T.div(T.sub(y0, p[2][1]), T.sub(p[3][1], p[2][1]))
    C.check(ctx, r, "clip_polyline_box[unknown]", lift(ctx, unknown), [
        [at(p[0], p[1], t0), p[1], p[2], at(p[2], p[3], t1)]])


# -- cells --------------------------------------------------------------------------------
def cells(ctx):
    r = "R4-cells"
    far = range(-5, 6)
    x, y = T.sym("x", (), "int"), T.sym("y", (), "int")
    for dx, dy in itertools.product(far, far):
        if abs(dx) == 4 or abs(dy) == 4:
            continue
        n = max(abs(dx), abs(dy))

        def body(l):
            out = helper(l, "bresenham_line", (x, y), (T.add(x, dx), T.add(y, dy)))
            rows = V.to_arr(out).data.tolist()
            near = True
            for k, p in enumerate(rows[:n + 1]):
                for a, d, v in zip((x, y), (dx, dy), p):
                    off = T.sub(T.sub(v, a), d * k / n if n else 0)
                    near = T.land(near, T.app("le", T.app("abs", off), 0.5 + 1e-9))
            return [len(p) for p in rows], near, rows[0], rows[-1]
        C.check(ctx, r, f"bresenham_line[{dx},{dy}]", lift(ctx, body), (
            [2] * (n + 1), True, [x, y], [T.add(x, dx), T.add(y, dy)]))


def circles(ctx):
    r = "R4-cells"
    for (x, y), radius in itertools.product(
            [(0, 0), (7, -4), (-20, 11)], [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20]):

        def body(l):
            out = V.to_arr(helper(l, "bresenham_circle", (x, y), radius))
            ps = [(p[0] - x, p[1] - y) for p in out.data.tolist()]
            if any(a != a for p in ps for a in p):
                return "missing"
            near = all(abs(math.hypot(*p) - radius) <= 0.5 for p in ps)
            steps = all(max(abs(a - b) for a, b in zip(p, q)) == 1
                        for p, q in zip(ps, ps[1:]))
            once = len(set(ps)) == len(ps) - 1 and ps[0] == ps[-1]
            turn = sum(math.atan2(p[0] * q[1] - p[1] * q[0], p[0] * q[0] + p[1] * q[1])
                       for p, q in zip(ps, ps[1:]))
            return near, steps, once, round(abs(turn) / math.pi / 2)
        C.check(ctx, r, f"bresenham_circle[{x},{y},{radius}]", lift(ctx, body),
                (True, True, True, 1))


# -- matched ------------------------------------------------------------------------------
def seen(view, line, directions, n=400):
    """Densely spaced image points along a world line (None where it is not in view),
    between vertices in front of the camera."""
    out = []
    for p, q in zip(line, line[1:]):
        if any(S.project(view, s, directions=directions, corr=view.corr)[1] <= 0
               for s in (p, q)):
            continue
        for k in range(n + 1):
            s = [a + (b - a) * k / n for a, b in zip(p, q)]
            uv, depth = S.project(view, s, directions=directions, corr=view.corr)
            ok = depth > 0 and all(0 <= x <= m for x, m in zip(uv, view.sz.data))
            out.append(tuple(uv) if ok else None)
    return out


def distance(p, uv):
    return min((math.hypot(p[0] - q[0], p[1] - q[1]) for q in uv if q is not None),
               default=math.inf)


def matched(ctx):
    r = "R5-matched"
    at = (10.0, -20.0, 5.0)
    views = {
        "level": View((12, 8), (10, 10), at, (0, 0, 0)),
        "turned": View((12, 8), (10, 11), at, (25, -10, 8), c=(0.5, -0.3)),
        "distorted": View((12, 8), (10, 11), at, (5, -3, 2), k=(0.03, -0.01)),
        "pincushion": View((12, 8), (10, 10), at, (0, 0, 0), k=(0.6,)),
    }
    lines = {
        "across": [[(-20.0, 30.0, 1.0), (4.0, 5.0, 4.0), (25.0, 10.0, 3.0),
                    (40.0, 9.0, 2.0)]],
        "two": [[(5.0, 0.0, 0.0), (10.0, 2.0, 6.0), (14.0, 1.0, 0.0)],
                [(0.0, 30.0, 9.0), (9.0, 20.0, 8.0), (24.0, 20.0, 9.0)]],
        "behind too": [[(8.0, 10.0, 3.0), (12.0, 9.0, 6.0), (40.0, -60.0, 0.0),
                        (-30.0, -50.0, 0.0)]],
        "out and in": [[(5.0, 0.0, 5.0), (10.0, 0.0, 30.0), (16.0, 0.0, 5.0)]],
        "left edge": [[(-0.05, 0.0, -25.0), (-0.05, 0.0, 10.0), (-0.05, 0.0, 35.0)]],
    }
    obs = [(2.0, 3.0), (6.3, 4.4), (11.0, 1.0)]
    for (vn, view), (ln, world) in itertools.product(views.items(), lines.items()):
        for directions in (False, True):
            density = 4.0
            w = [[[a - b if directions else a for a, b in zip(p, at)] for p in line]
                 for line in world]
            dense = [q for line in w for q in seen(view, line, directions)]
            if not any(q is not None for q in dense):
                continue
            near = [distance(p, dense) for p in obs]

            def body(l):
                o = l.construct(l.prog.cls("Lines"), [], dict(
                    cam=view.build(l), uvs=[V.to_arr([list(p) for p in obs[:1]]), V.to_arr(
                        [list(p) for p in obs[1:]])],
                    xyzs=[V.to_arr(p) for p in w], directions=directions,
                    density=density))
                out = V.to_arr(method(l, o, "predicted"))
                some = V.to_arr(method(l, o, "predicted", index=slice(1, None)))
                res = []
                for p, q, n in zip(obs, out.data.tolist(), near):
                    on = distance(q, dense)
                    far = math.hypot(q[0] - p[0], q[1] - p[1])
                    res.append([on < 0.15, far < n + 1.5 / density])
                return res, out.data[1:].tolist() == some.data.tolist()
            out = lift(ctx, body)
            C.check(ctx, r, f"Lines.predicted[{vn},{ln},{directions}]", out,
                    ([[True, True]] * len(obs), True))
    # lines out of view: the nearest of their vertices in front of the camera
    away = {
        "to the side": [[(60.0, 0.0, 0.0), (55.0, 5.0, 9.0)],
                        [(-60.0, 10.0, 3.0), (-50.0, 3.0, 4.0), (-40.0, -10.0, 4.0)]],
        "partly behind": [[(70.0, -5.0, 5.0), (55.0, 5.0, 9.0), (-70.0, -80.0, 3.0)]],
    }
    for (vn, view), (ln, world) in itertools.product(list(views.items())[:2], away.items()):
        ends = [S.project(view, p, corr=view.corr) for line in world for p in line]
        ends = [list(uv) for uv, depth in ends if depth > 0]
        want = [min(ends, key=lambda q: math.hypot(q[0] - p[0], q[1] - p[1])) for p in obs]

        def body(l):
            o = l.construct(l.prog.cls("Lines"), [], dict(
                cam=view.build(l), uvs=[V.to_arr([list(p) for p in obs])],
                xyzs=[V.to_arr(p) for p in world]))
            return method(l, o, "predicted")
        C.check(ctx, r, f"Lines.predicted[{vn},{ln}]", lift(ctx, body), V.to_arr(want))
