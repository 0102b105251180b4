"""C29: filters of arrays with excluded cells, and cells of points and polygons."""
import itertools
import math

import numpy as np

from ..spec.vectors import Ogr
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method
from .c28 import helper

NAN = float("nan")


def run(ctx):
    ctx.rule("R1-smoothed", "smoothed cells are the weighted means of the included cells "
             "about them")
    ctx.rule("R2-greatest", "cells are the greatest of the included cells about them")
    ctx.rule("R3-polygons", "cells with centers in any of the polygons and in none of the "
             "holes, in array or world coordinates")
    ctx.rule("R4-points", "cells are the means of the points in them, or missing")
    ctx.rule("R6-circle", "cells within a radius of a cell are filled and no others")
    ctx.rule("R5-matched", "values are those with the same probability")
    smoothed(ctx)
    greatest(ctx)
    polygons(ctx)
    points(ctx)
    circles(ctx)
    matched(ctx)
    ctx.need("R1-smoothed", 2)
    ctx.need("R3-polygons", 2)


# -- filters ------------------------------------------------------------------------------
MASKS = {
    "all": [[1, 1, 1, 1], [1, 1, 1, 1], [1, 1, 1, 1]],
    "some": [[1, 0, 1, 1], [0, 1, 1, 0], [1, 1, 0, 1]],
    "few": [[0, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 0]],
}


def weights(n, sd, truncate):
    """(n, n) weights of cells along an axis extended by reflection about its ends."""
    r = int(truncate * sd + 0.5)
    w = [math.exp(-0.5 * (k / sd) ** 2) for k in range(-r, r + 1)]
    out = np.zeros((n, n))
    for i in range(n):
        for k in range(-r, r + 1):
            j = (i + k) % (2 * n)
            out[i, j if j < n else 2 * n - 1 - j] += w[k + r] / sum(w)
    return out


def smooth(a, mask, sd, truncate, fill):
    """Specified values of a smoothed array."""
    ny, nx = a.shape
    sd = sd if isinstance(sd, tuple) else (sd, sd)
    wy, wx = (weights(n, s, truncate) for n, s in zip(a.shape, sd))
    out = np.empty(a.shape, dtype=object)
    for i, j in np.ndindex(ny, nx):
        if not mask[i][j] and not fill:
            out[i, j] = a[i, j]
            continue
        num = den = 0
        for p, q in np.ndindex(ny, nx):
            w = wy[i, p] * wx[j, q]
            if mask[p][q] and w:
                num, den = T.add(num, T.mul(float(w), a[p, q])), den + float(w)
        out[i, j] = T.div(num, den) if den else NAN
    return V.to_arr(out.tolist())


def top(a, mask, size, fill):
    """Specified values of an array of the greatest in windows."""
    ny, nx = a.shape
    size = size if isinstance(size, tuple) else (size, size)
    out = np.empty(a.shape, dtype=object)
    for i, j in np.ndindex(ny, nx):
        v = None
        for p in range(i - size[0] // 2, i - size[0] // 2 + size[0]):
            for q in range(j - size[1] // 2, j - size[1] // 2 + size[1]):
                r, c = p % (2 * ny), q % (2 * nx)
                r, c = min(r, 2 * ny - 1 - r), min(c, 2 * nx - 1 - c)
                if mask[r][c]:
                    v = a[r, c] if v is None else T.app("max2", v, a[r, c])
        out[i, j] = a[i, j] if v is None or not (fill or mask[i][j]) else v
    return V.to_arr(out.tolist())


def boolean(mask):
    return V.to_arr([[bool(v) for v in row] for row in mask])


def missing(a, mask):
    """The array with excluded cells missing."""
    out = a.copy()
    for i in np.ndindex(*out.data.shape):
        if not mask[i[0]][i[1]]:
            out.data[i] = NAN
    return out


def smoothed(ctx):
    r = "R1-smoothed"
    a = V.sym_array("a", (3, 4), ("range", 1.0, 9.0))
    for mn, mask in MASKS.items():
        for sd, truncate in ((1, 4.0), (0.5, 2.0), ((1, 0.7), 1.0)):
            if mn == "few" and truncate < 4:
                continue            # no included cell about some
            for fill in (False, True):
                for values in ("values", "missing"):
                    given = missing(a, mask) if values == "missing" else a

                    def body(l):
                        kw = {"truncate": truncate} if truncate != 4 else {}
                        if fill:
                            kw["fill"] = True
                        x = given.copy()
                        out = helper(l, "gaussian_filter", x, mask=boolean(mask), sigma=sd,
                                     **kw)
                        return out, x
                    C.check(ctx, r, f"gaussian_filter[{mn},{sd},{fill},{values}]",
                            lift(ctx, body), (
                                smooth(given.data, mask, sd, truncate, fill), given))
    whole = MASKS["all"]
    C.check(ctx, r, "gaussian_filter[no mask]", lift(ctx, lambda l: helper(
        l, "gaussian_filter", a.copy(), sigma=1)), smooth(a.data, whole, 1, 4.0, False))
    n = V.to_arr([[T.sym(f"n{i}{j}", (), "posint") for j in range(4)] for i in range(3)])
    C.check(ctx, r, "gaussian_filter[whole numbers]", lift(ctx, lambda l: helper(
        l, "gaussian_filter", n.copy(), sigma=1, mask=boolean(MASKS["some"]), fill=True)),
        smooth(n.data, MASKS["some"], 1, 4.0, True))


def greatest(ctx):
    r = "R2-greatest"
    a = V.sym_array("a", (3, 4), ("range", -9.0, 9.0))
    for mn, mask in MASKS.items():
        for size in (3, 2, (1, 3)):
            for fill in (False, True):
                for values in ("values", "missing"):
                    given = missing(a, mask) if values == "missing" else a

                    def body(l):
                        x = given.copy()
                        out = helper(l, "maximum_filter", x, mask=boolean(mask), size=size,
                                     **({"fill": True} if fill else {}))
                        return out, x
                    C.check(ctx, r, f"maximum_filter[{mn},{size},{fill},{values}]",
                            lift(ctx, body), (top(given.data, mask, size, fill), given))
    whole = MASKS["all"]
    C.check(ctx, r, "maximum_filter[no mask]", lift(ctx, lambda l: helper(
        l, "maximum_filter", a.copy(), size=3)), top(a.data, whole, 3, False))
    n = V.to_arr([[T.sym(f"n{i}{j}", (), "posint") for j in range(4)] for i in range(3)])
    C.check(ctx, r, "maximum_filter[whole numbers]", lift(ctx, lambda l: helper(
        l, "maximum_filter", n.copy(), size=3, mask=boolean(MASKS["some"]), fill=True)),
        top(n.data, MASKS["some"], 3, True))
    b = [[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]
    for mn, mask in MASKS.items():
        for fill in (False, True):
            want = [[max([b[p][q] for p in range(max(i - 1, 0), min(i + 2, 3))
                          for q in range(max(j - 1, 0), min(j + 2, 4)) if mask[p][q]] or [0])
                     if mask[i][j] or fill else b[i][j] for j in range(4)]
                    for i in range(3)]
            want = [[bool(v) for v in row] for row in want]
            if fill and any(not v for row in want for v in row):
                # cells of the least value are taken for cells without any
                continue
            C.check(ctx, r, f"maximum_filter[{mn},{fill},true or false]", lift(
                ctx, lambda l: helper(l, "maximum_filter", boolean(b), size=3,
                                      mask=boolean(mask), fill=fill)), boolean(want))
    # both, of a raster
    for mn, mask in MASKS.items():
        for fill in (False, True):
            for kind in ("array", "function", "any function", "any array"):
                given = a if "any" in kind else missing(a, mask)

                def crevasses(l):
                    o = l.construct(l.prog.cls("Raster"), [given.copy()], dict(
                        x=(0.0, 4.0), y=(3.0, 0.0)))
                    m = boolean(mask) if "array" in kind else V.Native(
                        lambda x: l.call(V.Ext("numpy.isfinite"), [x], {})
                        if kind == "function" else boolean(mask))
                    method(l, o, "fill_crevasses", maximum={"size": 3},
                           gaussian={"sigma": 0.5}, mask=m, fill=fill)
                    return l.getattr(o, "array")
                up = top(given.data, mask, 3, fill)
                C.check(ctx, r, f"Raster.fill_crevasses[{mn},{fill},{kind}]",
                        lift(ctx, crevasses), smooth(up.data, mask, 0.5, 4.0, fill))
    def plain(l):
        o = l.construct(l.prog.cls("Raster"), [a.copy()], dict(x=(0.0, 4.0), y=(3.0, 0.0)))
        method(l, o, "fill_crevasses", maximum={"size": 3}, gaussian={"sigma": 1})
        return l.getattr(o, "array")
    C.check(ctx, r, "Raster.fill_crevasses[no mask]", lift(ctx, plain), smooth(
        top(a.data, whole, 3, False).data, whole, 1, 4.0, False))


# -- polygons -----------------------------------------------------------------------------
def convex(p, ring):
    """Whether a point is on the same side of all edges of a convex polygon."""
    left = right = True
    for a, b in zip(ring, ring[1:] + ring[:1]):
        s = T.sub(T.mul(T.sub(b[0], a[0]), T.sub(p[1], a[1])),
                  T.mul(T.sub(b[1], a[1]), T.sub(p[0], a[0])))
        left, right = T.land(left, T.app("lt", 0, s)), T.land(right, T.app("lt", s, 0))
    return T.lor(left, right)


def covered(p, rings, holes=()):
    yes = no = False
    for ring in rings:
        yes = T.lor(yes, convex(p, ring))
    for ring in holes:
        no = T.lor(no, convex(p, ring))
    return T.land(yes, T.lnot(no))


def vertices(name, at, spread=0.35):
    return [tuple(T.sym(f"{name}{k}{n}", (), ("range", v - spread, v + spread))
                  for n, v in zip("xy", p)) for k, p in enumerate(at)]


def polygons(ctx):
    r = "R3-polygons"
    tri = vertices("t", [(0.6, 0.7), (4.6, 1.0), (1.5, 3.6)])
    quad = vertices("q", [(2.0, 1.3), (5.2, 1.7), (4.8, 3.7), (1.6, 3.1)])
    hole = vertices("h", [(2.5, 0.6), (3.5, 1.8), (2.4, 2.4)], 0.2)
    hole2 = vertices("g", [(4.0, 2.0), (4.6, 2.1), (4.2, 3.4)], 0.2)
    outer = vertices("o", [(-3.0, -2.0), (4.0, -1.0), (3.4, 6.4), (-2.0, 2.5)])
    cases = {
        "one": ([tri], None), "reversed": ([tri[::-1]], None), "closed": (
            [tri + tri[:1]], None), "two": ([tri, quad], None), "hole": ([quad], [hole]),
        "two holes": ([tri, quad], [hole, hole2]), "beyond": ([outer], [tri]),
        "none": ([], None), "no holes": ([quad], [])}

    def plain(ring):
        return ring[:-1] if ring[0] is ring[-1] else ring
    for n, (rings, holes) in cases.items():
        want = V.to_arr([[covered((j + 0.5, i + 0.5), [plain(p) for p in rings],
                                  holes or ()) for j in range(6)] for i in range(4)])

        def body(l):
            Ogr(l)
            return helper(l, "polygons_to_mask", [list(p) for p in rings], (6, 4),
                          **({} if holes is None else {"holes": [list(h) for h in holes]}))
        C.check(ctx, r, f"polygons_to_mask[{n}]", lift(ctx, body), want)
    # world coordinates: limits, and spacing
    for dn, (x0, x1, y0, y1) in {
            "unit": (0.0, 6.0, 0.0, 4.0), "down": (10.0, 22.0, 5.0, -1.0),
            "left": (4.0, -2.0, -3.0, 9.0), "up": (-7.0, -4.0, 1.0, 2.0)}.items():
        dx, dy = (x1 - x0) / 6, (y1 - y0) / 4

        def world(p):
            return [T.add(x0, T.mul(dx, p[0])), T.add(y0, T.mul(dy, p[1]))]
        for n in ("one", "two", "two holes", "beyond"):
            rings, holes = cases[n]
            want = V.to_arr([[covered((j + 0.5, i + 0.5), rings, holes or ())
                              for j in range(6)] for i in range(4)])

            def raster(l):
                Ogr(l)
                o = l.construct(l.prog.cls("Raster"), [V.full((4, 6), 0.0, "f")], dict(
                    x=(x0, x1), y=(y0, y1)))
                kw = {} if holes is None else {"holes": [
                    V.to_arr([world(p) for p in h]) for h in holes]}
                return method(l, o, "rasterize_polygons", [
                    V.to_arr([world(p) for p in q]) for q in rings], **kw)
            C.check(ctx, r, f"Raster.rasterize_polygons[{dn},{n}]", lift(ctx, raster), want)


# -- points -------------------------------------------------------------------------------
def points(ctx):
    r = "R4-points"
    cells = [(0, 0), (2, 3), (0, 0), (1, 2), (2, 3), (2, 3), (3, 0), None, None, None]
    for dn, (x0, x1, y0, y1) in {
            "unit": (0.0, 4.0, 0.0, 4.0), "down": (10.0, 18.0, 5.0, -1.0),
            "left": (4.0, -2.0, -3.0, 9.0)}.items():
        dx, dy = (x1 - x0) / 4, (y1 - y0) / 4
        out = iter([(-0.5, 1.5), (2.5, 4.6), (5.1, -1.2)])
        xy, values, want = [], [], {}
        for k, c in enumerate(cells):
            u, v = [T.sym(f"{n}{k}", (), ("range", 0.1, 0.9)) for n in "uv"]
            if c is None:
                a, b = next(out)
                xy.append([x0 + dx * a, y0 + dy * b])
            else:
                xy.append([T.add(x0, T.mul(dx, T.add(c[1], u))),
                           T.add(y0, T.mul(dy, T.add(c[0], v)))])
            values.append(T.sym(f"w{k}"))
            if c is not None:
                want.setdefault(c, []).append(values[-1])

        def mean(vs):
            t = 0
            for v in vs:
                t = T.add(t, v)
            return T.div(t, len(vs))
        grid = [[mean(want[i, j]) if (i, j) in want else NAN for j in range(4)]
                for i in range(4)]
        # one point on the far corner belongs to the last cell
        xy.append([x1, y1])
        values.append(T.sym("w"))
        grid[3][3] = values[-1]

        def body(l):
            o = l.construct(l.prog.cls("Raster"), [V.full((4, 4), 0.0, "f")], dict(
                x=(x0, x1), y=(y0, y1)))
            return method(l, o, "rasterize", V.to_arr(xy), V.to_arr(values))
        C.check(ctx, r, f"Raster.rasterize[{dn}]", lift(ctx, body), V.to_arr(grid))
        # points anywhere in known cells
        for u, v in ((0.3, 0.8), (0.9, 0.2), (0.6, 0.6)):
            at = [(0, 0), (1, 2), (3, 3), (2, 1)]
            grid = V.full((4, 4), NAN, "f")
            for k, c in enumerate(at):
                grid.data[c] = values[k]

            def known(l):
                o = l.construct(l.prog.cls("Raster"), [V.full((4, 4), 0.0, "f")], dict(
                    x=(x0, x1), y=(y0, y1)))
                return method(l, o, "rasterize", V.to_arr(
                    [[x0 + dx * (j + u), y0 + dy * (i + v)] for i, j in at]),
                    V.to_arr(values[:4]))
            C.check(ctx, r, f"Raster.rasterize[{dn},{u},{v}]", lift(ctx, known), grid)


# -- circles ------------------------------------------------------------------------------
def circles(ctx):
    r = "R6-circle"
    ny, nx = 7, 6
    values = V.to_arr([[T.sym(f"z{i}{j}") for j in range(nx)] for i in range(ny)])
    for (dn, (x0, d, y0, e)), at, radius in itertools.product(
            {"up": (0.0, 1.0, 0.0, 1.0), "down": (10.0, 2.0, 5.0, -2.0),
             "left": (4.0, -0.5, -3.0, -0.5), "right": (-1.0, -3.0, 2.0, 3.0)}.items(),
            [(3, 2), (0, 0), (6, 5), (1, 4), (6, 1)], [1, 2, 3, 4.2, 2.7]):
        # a point in the cell
        u, v = [T.sym(n, (), ("range", 0.1, 0.9)) for n in "uv"]
        center = (T.add(x0, T.mul(d, T.add(at[1], u))), T.add(y0, T.mul(e, T.add(at[0], v))))
        n = round(radius)
        for fill in (NAN, 2.5) if dn == "down" else (NAN,):

            def body(l):
                o = l.construct(l.prog.cls("Raster"), [values.copy()], dict(
                    x=(x0, x0 + d * nx), y=(y0, y0 + e * ny)))
                kw = {} if fill is NAN else {"value": fill}
                method(l, o, "fill_circle", center, radius * abs(d), **kw)
                out = V.to_arr(l.getattr(o, "array"))
                # cells about the circle may or may not be filled
                return list(out.data.shape), [
                    values.data[i, j] if abs(math.hypot(i - at[0], j - at[1]) - n) < 0.5
                    and same(out.data[i, j], fill) else out.data[i, j]
                    for i, j in np.ndindex(ny, nx)]
            want = [fill if math.hypot(i - at[0], j - at[1]) <= n - 0.5 else values.data[i, j]
                    for i, j in np.ndindex(ny, nx)]
            C.check(ctx, r, f"Raster.fill_circle[{dn},{at},{radius},{fill}]",
                    lift(ctx, body), ([ny, nx], want))


def same(a, b):
    return isinstance(a, (int, float)) and (a == b or a != a and b != b)


# -- distributions ------------------------------------------------------------------------
def matched(ctx):
    r = "R5-matched"
    lo = [[3, 0, 2], [2, 5, 0]]           # ranks of the values
    a = [T.sym(f"a{k}", (), ("range", 2.0 * k, 2.0 * k + 1)) for k in range(6)]
    given = V.to_arr([[a[k] for k in row] for row in lo])
    counts = {0: 2, 2: 2, 3: 1, 5: 1}
    order = sorted(counts)
    q, total = [], 0
    for k in order:
        total += counts[k]
        q.append(total / 6)
    C.check(ctx, r, "compute_cdf", lift(ctx, lambda l: helper(
        l, "compute_cdf", given.copy())), (V.to_arr([a[k] for k in order]), V.to_arr(q)))

    def inverse(l):
        v, p, i = l.iterate(helper(l, "compute_cdf", given.copy(), return_inverse=True))
        back = l.getitem(v, i)
        return v, p, method(l, V.to_arr(back), "reshape", (2, 3))
    C.check(ctx, r, "compute_cdf[inverse]", lift(ctx, inverse), (
        V.to_arr([a[k] for k in order]), V.to_arr(q), given))
    mean = 0
    flat = [a[k] for row in lo for k in row]
    for x in flat:
        mean = T.add(mean, T.div(x, len(flat)))
    var = 0
    for x in flat:
        var = T.add(var, T.div(T.mul(T.sub(x, mean), T.sub(x, mean)), len(flat)))
    C.check(ctx, r, "normalize", lift(ctx, lambda l: helper(l, "normalize", given.copy())),
            V.to_arr([[T.div(T.sub(a[k], mean), T.app("sqrt", var)) for k in row]
                      for row in lo]))
    b = [T.sym(f"b{k}", (), ("range", 2.0 * k, 2.0 * k + 1)) for k in range(4)]
    for n, ref in {"two": [0, 1], "repeated": [0, 3, 3, 1, 2, 3, 0, 0], "one": [2]}.items():
        ks = sorted(set(ref))
        p = [sum(x <= k for x in ref) / len(ref) for k in ks]

        def at(v):
            if v <= p[0]:
                return b[ks[0]]
            for (p0, k0), (p1, k1) in zip(zip(p, ks), zip(p[1:], ks[1:])):
                if v <= p1:
                    t = (v - p0) / (p1 - p0)
                    return T.add(T.mul(1 - t, b[k0]), T.mul(t, b[k1]))
        want = V.to_arr([[at(q[order.index(k)]) for k in row] for row in lo])
        C.check(ctx, r, f"match_cdf[{n}]", lift(ctx, lambda l: helper(
            l, "match_cdf", given.copy(), V.to_arr([b[k] for k in ref]))), want)
        C.check(ctx, r, f"match_cdf[{n},distribution]", lift(ctx, lambda l: helper(
            l, "match_cdf", given.copy(), (V.to_arr([b[k] for k in ks]), V.to_arr(p)))),
            want)
