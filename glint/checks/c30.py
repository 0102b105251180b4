"""C30: cells visible from a position, and the horizon about it."""
import itertools
import math

from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method

NAN = float("nan")


def run(ctx):
    ctx.rule("R1-visible", "along the axes of the raster cells are visible that are higher "
             "(in angle) than all nearer cells")
    ctx.rule("R2-hidden", "cells are not visible behind two adjacent higher nearer cells "
             "or where missing, and are visible where higher than all nearer cells in "
             "their direction")
    ctx.rule("R3-horizon", "the horizon has the highest cell in each direction, unless it "
             "is the last one, in unbroken segments")
    ctx.rule("R4-corrected", "heights are corrected for earth curvature and refraction by "
             "squared horizontal distance")
    visible(ctx)
    horizon(ctx)
    ctx.need("R1-visible", 2)
    ctx.need("R3-horizon", 2)


def lowered(d2, correction):
    """Correction of heights at a squared distance."""
    if correction in (None, False):
        return 0.0
    c = {} if correction is True else correction
    return (c.get("refraction", 0.13) - 1) * d2 / (2 * c.get("radius", 6.3781e6))


class Surface:
    """A raster of heights at known cells."""

    def __init__(self, ny, nx, x=(0.0, 1.0), y=(0.0, -1.0), heights=None, gaps=()):
        """Coordinates are (edge, spacing)."""
        self.ny, self.nx = ny, nx
        self.x, self.y = x, y
        self.z = [[NAN if (i, j) in gaps else (heights or self.free)(i, j)
                   for j in range(nx)] for i in range(ny)]

    @staticmethod
    def free(i, j):
        return T.sym(f"z{i},{j}", (), ("range", -3.0, 3.0))

    def at(self, i, j):
        return (self.x[0] + (j + 0.5) * self.x[1], self.y[0] + (i + 0.5) * self.y[1])

    def build(self, l):
        return l.construct(l.prog.cls("Raster"), [V.to_arr(self.z)], dict(
            x=(self.x[0], self.x[0] + self.nx * self.x[1]),
            y=(self.y[0], self.y[0] + self.ny * self.y[1])))

    def missing(self, i, j):
        v = self.z[i][j]
        return isinstance(v, float) and v != v

    def cells(self, origin, correction=None):
        """Distance, heading, and slope of cells."""
        out = {}
        for i, j in itertools.product(range(self.ny), range(self.nx)):
            x, y = self.at(i, j)
            dx, dy = x - origin[0], y - origin[1]
            d = math.hypot(dx, dy)
            if d == 0:
                out[i, j] = d, 0.0, NAN
                continue
            dz = T.add(T.sub(self.z[i][j], origin[2]), lowered(d * d, correction))
            out[i, j] = d, math.atan2(dy, dx), (NAN if self.missing(i, j) else
                                                T.div(dz, d))
        return out


def highest(xs):
    out = xs[0]
    for x in xs[1:]:
        out = T.app("max2", out, x)
    return out


# -- viewshed -----------------------------------------------------------------------------
def visible(ctx):
    eye = T.sym("eye", (), ("range", -0.5, 1.0))
    curved = {"radius": 9.0, "refraction": 0.2}
    # along the axes
    for tag, s, (oi, oj), corr in (
            ("row", Surface(1, 7), (0, 2), False),
            ("column", Surface(7, 1), (3, 0), None),
            ("cross", Surface(5, 5), (2, 2), False),
            ("corner", Surface(4, 5, y=(10.0, -2.0), x=(3.0, 2.0)), (3, 0), False),
            ("ascending", Surface(5, 4, y=(-4.0, 0.5), x=(8.0, -0.5)), (1, 2), False),
            ("gaps", Surface(1, 7, gaps=((0, 3), (0, 6))), (0, 2), False),
            ("curved", Surface(1, 7), (0, 1), curved),
            ("curved cross", Surface(5, 5), (2, 1), curved),
            ("flat", Surface(1, 4, x=(0.0, 4e4), y=(0.0, -4e4)), (0, 0), False),
            ("earth", Surface(1, 4, x=(0.0, 4e4), y=(0.0, -4e4)), (0, 0), True)):
        r = "R4-corrected" if corr else "R1-visible"
        origin = (*s.at(oi, oj), eye)
        cells = s.cells(origin, corr)
        axes = [[(oi, j) for j in range(oj + 1, s.nx)], [(oi, j) for j in range(oj)][::-1],
                [(i, oj) for i in range(oi + 1, s.ny)], [(i, oj) for i in range(oi)][::-1]]
        want, at = [], []
        for ax in axes:
            nearer = []
            for c in ax:
                if s.missing(*c):
                    want.append(False)
                else:
                    slope = cells[c][2]
                    want.append(T.app("lt", highest(nearer), slope) if nearer else True)
                    nearer.append(slope)
                at.append(c)

        def body(l):
            kw = {} if corr is False else {"correction": corr}
            out = V.to_arr(method(l, s.build(l), "viewshed", origin, **kw))
            return out.dims, [out.data[c] for c in at]
        C.check(ctx, r, f"Raster.viewshed[{tag}]", lift(ctx, body), ((s.ny, s.nx), want))
    # everywhere
    for tag, s, origin, corr in (
            ("center", Surface(5, 5), (2.5, -2.5), False),
            ("off center", Surface(5, 5), (2.8, -1.8), False),
            ("border", Surface(4, 5), (0.3, -3.6), False),
            ("gaps", Surface(5, 5, gaps=((1, 2), (3, 3), (4, 0))), (2.5, -2.5), False),
            ("coarse", Surface(4, 4, x=(10.0, 5.0), y=(50.0, -5.0)), (19.0, 41.0), False),
            ("outside", Surface(3, 4), (-1.5, -1.2), False),
            ("curved", Surface(4, 4), (1.5, -1.5), curved)):
        origin = (*origin, eye)
        cells = s.cells(origin, corr)
        step = abs(s.x[1])
        rings = {}
        for c, (d, h, _) in cells.items():
            rings.setdefault(int(d / step + 0.5), []).append((h, c))
        first = min(k for k in rings if k)
        order = sorted(k for k in rings if k)

        def beside(k, h):
            """Cells of a ring on either side of a heading."""
            ring = sorted(rings[k])
            for g, c in ring:
                if g == h:
                    return [(g, c)]
            after = [x for x in ring if x[0] > h] or ring
            before = [x for x in ring if x[0] < h] or ring
            return [before[-1], after[0]]

        def towards(k, h, memo={}):
            """Cells nearer than a ring about a heading."""
            out = set()
            if k > 0:
                for g, c in beside(order[k - 1], h):
                    out |= {c} | towards(k - 1, g)
            return out

        def body(l):
            kw = {} if corr is False else {"correction": corr}
            return V.to_arr(method(l, s.build(l), "viewshed", V.to_arr(origin), **kw))
        out = lift(ctx, body)
        if not isinstance(out.value, V.Arr) or out.value.dims != (s.ny, s.nx):
            C.check(ctx, "R2-hidden", f"Raster.viewshed[{tag},all]", out, V.full(
                (s.ny, s.nx), True, "b"))
            continue
        want = V.full((s.ny, s.nx), True, "b")
        for c, (d, h, slope) in cells.items():
            k = int(d / step + 0.5)
            if not k:
                want.data[c] = out.value.data[c]      # about the position itself
            elif s.missing(*c):
                want.data[c] = False
            elif k == first:
                want.data[c] = True
            else:
                nearer = [cells[x][2] for x in towards(order.index(k), h)
                          if not s.missing(*x)]
                v = out.value.data[c]
                if nearer:
                    v = T.lor(v, T.app("lt", highest(nearer), slope))
                else:
                    v = True
                pair = [x for _, x in beside(order[order.index(k) - 1], h)]
                if not any(s.missing(*x) for x in pair):
                    hide = True
                    for x in pair:
                        hide = T.land(hide, T.app("lt", slope, cells[x][2]))
                    v = T.land(v, T.lnot(hide))
                want.data[c] = v
        C.check(ctx, "R2-hidden", f"Raster.viewshed[{tag},all]", out, want)
    turned(ctx, eye)


def turned(ctx, eye):
    """Viewsheds do not depend on the orientation of the axes."""
    for tag, n, m, (ox, oy), gaps in (
            ("center", 5, 5, (2.5, 2.5), ()), ("off center", 5, 4, (2.3, 1.9), ()),
            ("west", 3, 5, (4.2, 1.4), ()), ("border", 4, 4, (0.3, 3.6), ()),
            ("gaps", 5, 5, (2.5, 2.5), ((1, 1), (2, 1), (4, 2)))):
        def view(l, s, where):
            out = V.to_arr(method(l, s.build(l), "viewshed", (*where, eye)))
            return out if out.dims == (s.ny, s.nx) else None
        plain = Surface(n, m, gaps=gaps)
        for way, back, where, dims in (
                ("clockwise", lambda i, j: (n - 1 - j, i), (n - oy, -ox), (m, n)),
                ("around", lambda i, j: (n - 1 - i, m - 1 - j), (m - ox, oy - n), (n, m)),
                ("mirrored", lambda i, j: (i, m - 1 - j), (m - ox, -oy), (n, m))):
            s = Surface(*dims, heights=lambda i, j: plain.z[back(i, j)[0]][back(i, j)[1]])

            def body(l):
                return view(l, s, where), view(l, plain, (ox, -oy))
            out = lift(ctx, body)
            want = None
            if isinstance(out.value, tuple) and None not in out.value:
                want = V.full(dims, True, "b")
                for c in itertools.product(*map(range, dims)):
                    want.data[c] = out.value[1].data[back(*c)]
                want = (want, out.value[1])
            C.check(ctx, "R2-hidden", f"Raster.viewshed[{tag},{way}]", out, want)


# -- horizon ------------------------------------------------------------------------------
def crossing(s, origin, heading):
    """Cells along a heading, or None if some are ambiguous."""
    a = math.radians(heading)
    d = [math.sin(a), math.cos(a)]
    d = [0.0 if abs(v) < 1e-12 else v for v in d]
    lims = [sorted((e, e + n * w)) for (e, w), n in ((s.x, s.nx), (s.y, s.ny))]
    t0, t1 = -math.inf, math.inf
    for o, v, (lo, hi) in zip(origin, d, lims):
        if v == 0:
            if not lo <= o <= hi:
                return []
            continue
        p, q = sorted(((lo - o) / v, (hi - o) / v))
        t0, t1 = max(t0, p), min(t1, q)
    if t0 > t1 or t1 < 0:
        return []

    def cell(t):
        out = []
        for o, v, (e, w), n in zip(origin, d, (s.x, s.y), (s.nx, s.ny)):
            k = (o + t * v - e) / w
            if abs(k - round(k)) < 1e-6 and 0 < round(k) < n:
                return None
            out.append(min(max(math.floor(k), 0), n - 1))
        return out[::-1]
    inside = t0 <= 0
    a, b = cell(max(t0, 0.0)), cell(t1)
    if a is None or b is None:
        return None
    n = max(abs(q - p) for p, q in zip(a, b))
    out = []
    for k in range(n + 1):
        c = []
        for p, q in zip(a, b):
            v = p + (q - p) * k / n if n else p
            if abs(v % 1 - 0.5) < 1e-9:
                return None
            c.append(round(v))
        out.append(tuple(c))
    return out[1:] if inside else out


def traced(s, origin, headings, correction):
    """Horizon points (None where there is no horizon), or None."""
    cells = s.cells([v if T.is_num(v) else 0 for v in origin], correction)
    out = []
    for h in headings:
        line = crossing(s, origin, h)
        if line is None:
            return None
        line = [c for c in line if not s.missing(*c)]
        if not line:
            out.append(None)
            continue
        def slope(c):
            d = cells[c][0]
            return (s.middle[c] - s.eye + lowered(d * d, correction)) / d
        top = max(line, key=slope)
        out.append(None if top == line[-1] else [*s.at(*top), s.z[top[0]][top[1]]])
    return out


def segments(points):
    out = []
    for k, p in enumerate(points):
        if p is None:
            continue
        if k and points[k - 1] is not None:
            out[-1].append(p)
        else:
            out.append([p])
    if len(out) > 1 and points[0] is not None and points[-1] is not None:
        out[0] = out.pop() + out[0]
    return out


def hills(ny, nx, seed):
    """Well separated heights."""
    order = list(range(ny * nx))
    a = seed
    for k in range(len(order) - 1, 0, -1):
        a = (a * 1103515245 + 12345) % 2 ** 31
        j = (a >> 8) % (k + 1)
        order[k], order[j] = order[j], order[k]
    return {(i, j): 0.37 * order[i * nx + j] + 0.2 for i in range(ny) for j in range(nx)}


def horizon(ctx):
    curved = {"radius": 1.2, "refraction": 0.2}
    right = (0, 90, 180, 270)
    star = tuple(range(0, 360, 45))
    many = tuple(k + 0.5 for k in range(10, 360, 20))
    grids = (("square", 7, 7, (0.0, 1.0), (0.0, -1.0), ()),
             ("gaps", 7, 7, (0.0, 1.0), (0.0, -1.0),
              ((3, 4), (3, 5), (3, 6), (0, 3), (2, 2), (5, 5))),
             ("ascending", 6, 8, (50.0, -2.0), (10.0, 2.0), ()),
             ("long", 5, 9, (-4.5, 1.0), (7.0, -1.5), ((0, 0), (2, 8), (3, 3))),
             ("far", 7, 7, (0.0, 1e5), (0.0, -1e5), ()))
    wheres = (("center", (3.5, 3.5)), ("cell", (2.5, 1.5)), ("off", (3.3, 2.8)),
              ("border", (0.5, 2.5)), ("corner", (0.4, 0.3)), ("outside", (-2.5, 2.5)),
              ("beyond corner", (-1.4, -2.2)))
    count = 0
    for (gn, ny, nx, x, y, gaps), (wn, w), (hn, heads) in itertools.product(
            grids, wheres, (("right", right), ("star", star), ("many", many))):
        for corr in {"square": (False, curved), "far": (False, True)}.get(gn, (False,)):
            tall = 200 if gn == "far" else 1
            middle = {k: tall * v for k, v in hills(ny, nx, 7 + count).items()}
            s = Surface(ny, nx, x, y, gaps=gaps, heights=lambda i, j: T.sym(
                f"z{i},{j}", (), ("range", middle[i, j] - 0.001, middle[i, j] + 0.001)))
            s.middle = middle
            s.eye = 1.3
            eye = T.sym("eye", (), ("range", 1.299, 1.301))
            origin = (x[0] + w[0] * x[1], y[0] + w[1] * y[1], eye)
            heads_ = [h for h in heads if crossing(s, origin, h) is not None]
            if not clear(s, origin, heads_, corr, 0.001 if gn == "far" else 0.02):
                continue
            points = traced(s, origin, heads_, corr)
            if not heads_:
                continue
            count += 1

            def body(l):
                kw = {} if corr is False else {"correction": corr}
                out = method(l, s.build(l), "horizon", origin, headings=list(heads_), **kw)
                return [V.to_arr(v).data.tolist() for v in l.iterate(out)]
            C.check(ctx, "R4-corrected" if corr else "R3-horizon",
                    f"Raster.horizon[{gn},{wn},{hn}{',corrected' if corr else ''}]", lift(ctx, body), segments(points),
                    tol=1e-6)


def clear(s, origin, headings, correction, apart):
    """Whether the highest cells stand out."""
    cells = s.cells([v if T.is_num(v) else 0 for v in origin], correction)
    for h in headings:
        line = [c for c in crossing(s, origin, h) if not s.missing(*c)]
        v = sorted((s.middle[c] - s.eye + lowered(cells[c][0] ** 2, correction))
                   / cells[c][0] for c in line)
        if len(v) > 1 and v[-1] - v[-2] < apart:
            return False
    return True
