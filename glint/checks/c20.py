"""C20: interpolation of a raster timeseries."""
import itertools
import math

from ..spec import grid as SG
from ..spec import rasterfile as F
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift
from .c12 import value

add, mul, sub, div = T.add, T.mul, T.sub, T.div
NAN = float("nan")
INF = float("inf")


def run(ctx):
    ctx.rule("R1-nearest", "the rasters used are the nearest on either side, or the two "
             "nearest when extrapolating, in ascending order")
    ctx.rule("R2-mean", "the result varies linearly between the two rasters, which it "
             "equals where it coincides with them")
    ctx.rule("R3-sigma", "the standard deviation follows the documented error "
             "propagation and interpolation uncertainty")
    ctx.rule("R4-grid", "the result covers the intersection of the rasters and bounds, "
             "on the cells of the first raster")
    ctx.rule("R5-given", "the rasters given are left as they were")
    nearest(ctx)
    same_grid(ctx)
    grids(ctx)
    sigma_grids(ctx)
    resized(ctx)
    paths(ctx)
    cases(ctx)
    ctx.need("R1-nearest", 3)
    ctx.need("R2-mean", 3)
    ctx.assumptions += ["cells of any size (resized by averaging or repetition here)",
                        "real arithmetic; grids of up to 4 x 3 cells"]


def interpolant(l, means, sigmas=None, x=None):
    return l.construct(l.prog.cls("RasterInterpolant"), [means], {
        "sigmas": sigmas, "x": x})


def date(name="t0"):
    return T.sym(name, (), "datetime")


# -- nearest ------------------------------------------------------------------------------
def nearest(ctx):
    r = "R1-nearest"
    for x in ((0.0, 1.0, 2.5, 4.0), (4.0, 0.0, 2.5, 1.0), (1.0, 3.0), (2.0, 2.0, 5.0)):
        for xi in (0.0, 0.4, 1.0, 2.4, 3.9, 4.0, -1.0, 7.0, 3.0):
            for dated, extrapolate in itertools.product((False, True), repeat=2):
                def body(l):
                    at = (lambda v: add(date(), mul(86400, v))) if dated else float
                    o = interpolant(l, [1.0] * len(x), x=[at(v) for v in x])
                    kw = {"extrapolate": True} if extrapolate else {}
                    return l.call(l.getattr(o, "nearest"), [at(xi)], kw)
                name = f"RasterInterpolant.nearest[{xi} of {x},{dated},{extrapolate}]"
                out = lift(ctx, body)
                near = sorted(abs(v - xi) for v in x)
                if extrapolate:
                    if len(set(near[:3])) < len(near[:3]):
                        continue
                    ij = [k for k, v in enumerate(x) if abs(v - xi) in near[:2]]
                else:
                    low = [v for v in x if v <= xi]
                    high = [v for v in x if v >= xi]
                    if not low or not high:
                        C.check_raises(ctx, r, name, out, "ValueError")
                        continue
                    if len(x) == 3 and (max(low) == 2 or min(high) == 2):
                        continue    # one or the other
                    ij = [x.index(max(low)), x.index(min(high))]
                C.check(ctx, r, name, out, tuple(sorted(ij, key=lambda k: x[k])))


# -- interpolation ------------------------------------------------------------------------
def mean_sigma(z, x, xi, s=None):
    """Mean and standard deviation of a cell by linear interpolation."""
    dx = sub(x[1], x[0])
    dz = sub(z[1], z[0])
    t = div(sub(xi, x[0]), dx)
    m = add(z[0], mul(dz, t))
    if s is None:
        return m, None
    near = T.app("min2", *(T.app("abs", sub(xi, v)) for v in x))
    within = add(mul(s[0], s[0]), mul(mul(t, t), add(mul(s[0], s[0]), mul(s[1], s[1]))))
    between = div(mul(dz, div(near, dx)), 3)
    return m, T.app("sqrt", add(within, mul(between, between)))


def cells(fn, *arrays):
    """Apply to the elements of arrays and numbers."""
    shape = next(a.dims for a in arrays if isinstance(a, V.Arr))
    out = V.obj_array(shape)
    for k in itertools.product(*map(range, shape)):
        out[k] = fn(*(a.data[k] if isinstance(a, V.Arr) else a for a in arrays))
    return V.Arr(out, shape, "f")


def shown(l, r):
    return [l.getattr(r, a) for a in ("array", "xlim", "ylim", "datetime")]


def same_grid(ctx):
    g = U((1.0, 4.0), (-1.0, 1.0))
    y, h, w = V.sym_array("ya", (2, 3)), V.sym_array("yb", (2, 3)), V.sym_array(
        "yc", (2, 3))
    sa, sb = V.sym_array("sa", (2, 3), "pos"), V.sym_array("sb", (2, 3), "pos")
    sn = T.sym("sn", (), "pos")
    n = T.sym("number")
    for dated, order, kind in itertools.product((False, True), ((0, 1), (1, 0)), (
            "none", "rasters", "numbers", "mixed", "mean number", "first mean number",
            "default", "mask", "function", "mask, function")):
        for where in ("between", "first", "last", "before", "after"):
            if where != "between" and kind not in (
                    "none", "rasters", "mask", "function", "mask, function"):
                continue
            x = [add(T.sym("x0"), 0), add(T.sym("x0"), T.sym("span", (), (
                "range", 2.0, 9.0)))]
            xi = {"between": add(x[0], mul(sub(x[1], x[0]), T.sym("frac", (), "unit"))),
                  "first": x[0], "last": x[1], "before": sub(x[0], T.sym("gap", (), (
                      "range", 0.1, 1.0))), "after": add(x[1], T.sym("gap", (), (
                          "range", 0.1, 1.0)))}[where]
            if dated:
                x, xi = ([date("d0"), date("d1")], None)
                if where != "between":
                    continue
                x = [date("d0"), add(date("d0"), T.sym("span", (), ("range", 2.0, 9.0)))]
                xi = add(x[0], mul(sub(x[1], x[0]), T.sym("frac", (), "unit")))
            extrapolate = where in ("before", "after")
            zs = [y, h]
            if kind == "mean number":
                zs[1] = n
            if kind == "first mean number":
                zs[0] = n
            ss = {"rasters": [sa, sb], "numbers": [sn, T.sym("sm", (), "pos")],
                  "mixed": [sa, sn], "default": [0, 0]}.get(kind)

            def body(l, get):
                given = []

                def make(z):
                    if not isinstance(z, V.Arr):
                        return z
                    o = g.raster(l, z.copy())
                    given.append((o, z))
                    return o
                m = [make(z) for z in zs]
                far = [add(x[1], 50), sub(x[0], 50)]
                s = [make(z) for z in ss] if ss and kind != "default" else None
                # others before and after
                ms = [*m, make(w), make(w)]
                xs = [*x, *far]
                if s:
                    s = [*s, sn, sn]
                ks = [*(order if order == (0, 1) else (1, 0)), 2, 3]
                if order == (1, 0):
                    ks = [3, 1, 2, 0]
                    ms, xs, s = ([v[k] for k in ks] if v else v for v in (ms, xs, s))
                o = interpolant(l, ms, s, xs)
                kw = {"return_sigma": True} if ss else {}
                if extrapolate:
                    kw["extrapolate"] = True
                if kind.startswith("mask"):
                    kw["zlim"] = (-0.5, 0.5)
                if kind.endswith("function"):
                    # (modifies rasters in place)
                    def fun(raster, factor):
                        a = l.getattr(raster, "array")
                        for k in itertools.product(*map(range, a.dims)):
                            a.data[k] = mul(a.data[k], factor)
                    kw.update(fun=V.Native(fun), factor=3)
                out = l.call(o, [xi], kw)
                if get == "given":
                    return [shown(l, o)[:3] for o, _ in given]
                return shown(l, out if get == "mean" and not ss else
                             out[get == "sigma"])
            name = (f"RasterInterpolant[{kind},{where},{'dates' if dated else 'numbers'},"
                    f"{'reversed' if order[0] else 'in order'}]")
            lim = lambda v: T.ite(T.land(T.app("le", -0.5, v), T.app("le", v, 0.5)), v, NAN)
            mz = [cells(lim, z) for z in zs] if kind.startswith("mask") else zs
            if kind.endswith("function"):
                mz = [cells(lambda v: mul(v, 3), z) for z in mz]
            on = {"first": 0, "last": 1}.get(where)
            want = cells(lambda *z: z[on] if on is not None else
                         mean_sigma(z, x, xi)[0], *mz)
            head = [g.xlim, g.ylim, xi if dated else None]
            if extrapolate and kind in ("mask", "function", "mask, function"):
                continue
            C.check(ctx, "R2-mean", name, lift(ctx, lambda l: body(l, "mean")),
                    [want, *head])
            if ss:
                want = cells(lambda a, b, s, t: (s, t)[on] if on is not None else
                             mean_sigma((a, b), x, xi, (s, t))[1],
                             *zs, *ss)
                C.check(ctx, "R3-sigma", name, lift(ctx, lambda l: body(l, "sigma")),
                        [want, *head])
            left = [[z, g.xlim, g.ylim] for z in (*zs, *(ss or ()), w, w)
                    if isinstance(z, V.Arr)]
            if ss and kind != "default":
                left = [[z, g.xlim, g.ylim] for z in (*zs, *ss, w, w)
                        if isinstance(z, V.Arr)]
            C.check(ctx, "R5-given", name, lift(ctx, lambda l: body(l, "given")), left)


# -- grids --------------------------------------------------------------------------------
class U(SG.G):
    """A grid of unit cells."""

    def __init__(self, x, y, sx=1, sy=-1):
        self.nx, self.ny = x[1] - x[0], y[1] - y[0]
        self.nx, self.ny = int(self.nx), int(self.ny)
        self.x, self.y = (x if sx > 0 else x[::-1]), (y if sy > 0 else y[::-1])
        self.x, self.y = tuple(map(float, self.x)), tuple(map(float, self.y))
        self.sx, self.sy, self.late = sx, sy, False


def grids(ctx):
    r = "R4-grid"
    x = [2.0, 5.0]
    xi = 3.0
    A = ((0.0, 4.0), (0.0, 3.0))
    for B, xlim, ylim in itertools.product(
            (A, ((1.0, 5.0), (1.0, 4.0)), ((-1.0, 3.0), (1.0, 2.0)),
             ((0.25, 4.25), (0.0, 3.0)), ((0.5, 2.5), (-0.25, 2.75)),
             ((0.75, 4.75), (0.75, 4.75)), ((-0.75, 3.25), (0.0, 3.0))),
            (None, (1.0, 3.0), (3.0, 0.0)), (None, (1.0, 3.0))):
        for flip, s in itertools.product((False, True), ((1, -1), (-1, 1))):
            gs = [U(*A, *s), U(*B, *s)]
            if flip:
                gs.reverse()
            zs = [V.sym_array(f"g{k}", (g.ny, g.nx)) for k, g in enumerate(gs)]
            box = []
            for k, lim in ((0, xlim), (1, ylim)):
                low = max(min(g.x if k == 0 else g.y) for g in gs)
                high = min(max(g.x if k == 0 else g.y) for g in gs)
                if lim:
                    low, high = max(low, min(lim)), min(high, max(lim))
                box.append((low, high))
            # cells of the first raster that reach into the box
            g = gs[0]
            js = [j for j in range(g.nx) if overlap(g.x, j, g.nx, box[0])]
            is_ = [i for i in range(g.ny) if overlap(g.y, i, g.ny, box[1])]
            other = crop(gs[1], box)
            sub_ = V.Arr(zs[1].data[other[1]][:, other[0]].copy(), (
                len(other[1]), len(other[0])), "f")
            og = U(edge(gs[1].x, other[0], gs[1].nx), edge(gs[1].y, other[1], gs[1].ny), *s)
            want = V.obj_array((len(is_), len(js)))
            for a, i in enumerate(is_):
                for b, j in enumerate(js):
                    px, py = g.xc(j), g.yc(i)
                    v = value(og, sub_, px, py)
                    inside = T.truthy(og.inside(px, py)) if hasattr(T, "truthy") else \
                        og.inside(px, py)
                    v = T.ite(inside, v, NAN)
                    want[a, b] = mean_sigma((zs[0].data[i, j], v), x, xi)[0]
            lims = [SG.farr(*(e if sgn > 0 else e[::-1])) for e, sgn in (
                (edge(g.x, js, g.nx), s[0]), (edge(g.y, is_, g.ny), s[1]))]

            def body(l):
                given = [g.raster(l, z.copy()) for g, z in zip(gs, zs)]
                o = interpolant(l, given, x=x)
                kw = {k: v for k, v in (("xlim", xlim), ("ylim", ylim)) if v}
                out = shown(l, l.call(o, [xi], kw))[:3]
                return out, [shown(l, o)[:3] for o in given]
            C.check(ctx, r, f"RasterInterpolant[{gs[0].x}{gs[0].y},{gs[1].x}{gs[1].y},"
                    f"xlim={xlim},ylim={ylim}]", lift(ctx, body),
                    ([V.Arr(want, want.shape, "f"), *lims],
                     [[z, g.xlim, g.ylim] for g, z in zip(gs, zs)]))


def sigma_grids(ctx):
    """Standard deviations on other grids than those of the means."""
    x, xi = [2.0, 5.0], 3.0
    A, B, D = (((0.0, 4.0), (0.0, 3.0)), ((0.25, 4.25), (0.0, 3.0)),
               ((-1.0, 4.0), (0.75, 3.75)))
    n = T.sym("sn", (), "pos")
    m = T.sym("mean number")
    for name, on, flip in itertools.product(
            ("number first", "number second", "own", "others", "first", "third", "numbers"),
            ((A, B), (B, A), (A, A), (A, None), (None, A), (None, None)),
            ((1, -1), (-1, 1))):
        gs = [b and U(*b, *flip) for b in on]
        zs = [V.sym_array(f"g{k}", (g.ny, g.nx)) if g else m for k, g in enumerate(gs)]
        d, e = (b or A for b in on)
        ss = {"number first": (None, e), "number second": (d, None), "own": (d, e),
              "others": (e, d), "first": (d, d), "third": (D, B), "numbers": (None, None)}[
                  name]
        ss = [b and U(*b, *flip) for b in ss]
        ts = [V.sym_array(f"s{k}", (g.ny, g.nx), "pos") if g else n
              for k, g in enumerate(ss)]
        # cells of the first raster that reach into the extent of the means
        if gs == [None, None] and (ss == [None, None] or name == "third"):
            continue
        box = [(max((min(getattr(g, k)) for g in gs if g), default=-math.inf),
                min((max(getattr(g, k)) for g in gs if g), default=math.inf)) for k in "xy"]
        g = next(g for g in (*gs, *ss) if g)
        js = [j for j in range(g.nx) if overlap(g.x, j, g.nx, box[0])]
        is_ = [i for i in range(g.ny) if overlap(g.y, i, g.ny, box[1])]

        def at(h, z, px, py):
            if h is None:
                return z
            cols, rows = crop(h, box)
            if h.x == g.x and h.y == g.y:
                return next(z.data[i, j] for i in rows for j in cols
                            if (h.xc(j), h.yc(i)) == (px, py))
            sub_ = V.Arr(z.data[rows][:, cols].copy(), (len(rows), len(cols)), "f")
            c = U(edge(h.x, cols, h.nx), edge(h.y, rows, h.ny), *flip)
            return value(c, sub_, px, py) if c.inside(px, py) else NAN
        want = V.obj_array((2, len(is_), len(js)))
        for a, i in enumerate(is_):
            for b, j in enumerate(js):
                z, s = ([at(h, v, g.xc(j), g.yc(i)) for h, v in zip(hs, vs)]
                        for hs, vs in ((gs, zs), (ss, ts)))
                want[0, a, b] = mean_sigma(z, x, xi)[0]
                want[1, a, b] = mean_sigma(z, x, xi, s)[1]
        lims = [SG.farr(*(e if sgn > 0 else e[::-1])) for e, sgn in (
            (edge(g.x, js, g.nx), flip[0]), (edge(g.y, is_, g.ny), flip[1]))]

        def body(l):
            o = interpolant(l, *([h.raster(l, v.copy()) if h else v for h, v in zip(a, b)]
                                 for a, b in ((gs, zs), (ss, ts))), x=x)
            return [shown(l, v)[:3] for v in l.iterate(
                l.call(o, [xi], {"return_sigma": True}))]
        C.check(ctx, "R4-grid", f"RasterInterpolant[sigmas,{name},{on},{flip}]",
                lift(ctx, body), [[V.Arr(w.copy(), w.shape, "f"), *lims] for w in want])


def resized(ctx):
    """Rasters of other cell sizes are resized (here: averaged) to that asked for, or to
    the largest."""
    x, xi = [2.0, 5.0], 3.0
    sizes = {1.0: (4, 4), 2.0: (2, 2), 4.0: (1, 1)}

    def means(a, k):
        out = V.obj_array(tuple(n // k for n in a.dims))
        for i, j in itertools.product(*map(range, out.shape)):
            t = 0
            for p, q in itertools.product(range(k), repeat=2):
                t = add(t, a.data[i * k + p, j * k + q])
            out[i, j] = div(t, k * k)
        return V.Arr(out, out.shape, "f")

    def zoom(l, args, kw):
        d = dict(zip(("input", "zoom"), args), **kw)
        k = d["zoom"]
        k = k if isinstance(k, (int, float)) else V.to_arr(k).data.ravel()[0]
        if k == 1:
            return V.to_arr(d["input"]).copy()
        if k in (2, 4):
            return repeat(V.to_arr(d["input"]), int(k))
        if round(1 / k) not in (2, 4):
            raise V.Unsupported("zoom")
        return means(V.to_arr(d["input"]), round(1 / k))

    def repeat(a, k):
        out = V.obj_array(tuple(n * k for n in a.dims))
        for i, j in itertools.product(*map(range, out.shape)):
            out[i, j] = a.data[i // k, j // k]
        return V.Arr(out, out.shape, "f")

    def size_of(a, c, to):
        return a if c == to else means(a, round(to / c)) if c < to else \
            repeat(a, round(c / to))
    for sz, d, s in itertools.product(itertools.product((1.0, 2.0), repeat=2),
                                      (None, 1.0, 2.0, 4.0), ((1, -1), (-1, 1))):
        to = d or max(sz)
        xl, yl = (0.0, 4.0)[::s[0]], (-1.0, 3.0)[::s[1]]
        zs = [V.sym_array(f"g{k}", sizes[c]) for k, c in enumerate(sz)]
        ts = [V.sym_array(f"s{k}", sizes[c], "pos") for k, c in enumerate(sz)]
        z, t = ([size_of(a, c, to) for a, c in zip(v, sz)] for v in (zs, ts))

        def body(l):
            l.ext["scipy.ndimage.zoom"] = zoom
            made = [[l.construct(l.prog.cls("Raster"), [a.copy()], dict(x=xl, y=yl))
                     for a in v] for v in (zs, ts)]
            o = interpolant(l, *made, x=x)
            kw = {"return_sigma": True}
            if d is not None:
                kw["d"] = d
            return [shown(l, v)[:3] for v in l.iterate(l.call(o, [xi], kw))], [
                l.getattr(v, "array") for m in made for v in m]
        lims = [SG.farr(*xl), SG.farr(*yl)]
        C.check(ctx, "R4-grid", f"RasterInterpolant[cells of {sz},d={d},{s}]",
                lift(ctx, body), ([
                    [cells(lambda *v: mean_sigma(v, x, xi)[0], *z), *lims],
                    [cells(lambda a, b, p, q: mean_sigma((a, b), x, xi, (p, q))[1],
                           *z, *t), *lims]], [*zs, *ts]))


def paths(ctx):
    """Rasters given by the paths to files of them."""
    x = [add(date("d0"), 0), add(date("d0"), 9.0)]
    xi = add(date("d0"), 3.0)
    # (file: cells of 1; the nearest are read for other cell sizes)
    A, B, W = ((0.0, 6.0), (0.0, 3.0)), ((3.0, 9.0), (-3.0, 3.0)), ((3.0, 6.0), (0.0, 3.0))
    for kinds, d, lims, flip, sigma in itertools.product(
            ("ff", "fr", "rf", "fn", "nf"), (None, 1.0, 3.0),
            ((None, None), ((4.0, 6.0), None), (None, (2.0, 0.0))),
            ((1, -1), (-1, 1)), (None, "f", "r")):
        if d == 3.0 and ("r" in kinds or sigma == "r" or lims != (None, None)):
            continue
        if sigma and (lims[0] or d == 1.0):
            continue
        gs = [U(*b, *flip) if k != "n" else None for k, b in zip(kinds, (A, B))]
        zs = [V.sym_array(f"g{k}", (g.ny, g.nx)) if g else T.sym("number")
              for k, g in enumerate(gs)]
        ts = [V.sym_array(f"s{k}", (g.ny, g.nx), "pos") if g else T.sym("sn", (), "pos")
              for k, g in enumerate(gs)]
        box = list(W) if None not in gs else list(A if gs[0] else B)
        for k in (0, 1):
            if lims[k]:
                box[k] = (max(box[k][0], min(lims[k])), min(box[k][1], max(lims[k])))

        def window(g, a):
            if g is None:
                return a
            cols, rows = crop(g, box)
            if d == 3.0:
                cols, rows = cols[1::3], rows[1::3]
            return V.Arr(a.data[rows][:, cols].copy(), (len(rows), len(cols)), "f")
        z, t = ([window(g, a) for g, a in zip(gs, v)] for v in (zs, ts))

        def body(l):
            files = {}
            F_ = F.Gdal(l)

            def make(n, k, g, a):
                if g is None:
                    return a
                if k == "r":
                    return g.raster(l, a.copy())
                F_.files[n] = F.Data([a.copy()], (
                    g.x[0], float(g.sx), 0.0, g.y[0], 0.0, float(g.sy)))
                return n
            ms = [make(f"m{i}", k, g, a) for i, (k, g, a) in enumerate(zip(kinds, gs, zs))]
            ss = [make(f"s{i}", sigma, g, a) for i, (g, a) in enumerate(zip(gs, ts))] \
                if sigma else None
            o = interpolant(l, ms, ss, x)
            kw = {k: v for k, v in (("d", d), ("xlim", lims[0]), ("ylim", lims[1])) if v}
            if sigma:
                return [shown(l, v) for v in l.iterate(l.call(o, [xi], {
                    **kw, "return_sigma": True}))]
            return shown(l, l.call(o, [xi], kw))
        head = [SG.farr(*box[0][::flip[0]]), SG.farr(*box[1][::flip[1]]), xi]
        want = [cells(lambda *v: mean_sigma(v, x, xi)[0], *z), *head]
        if sigma:
            want = [want, [cells(lambda a, b, p, q: mean_sigma(
                (a, b), x, xi, (p, q))[1], *z, *t), *head]]
        C.check(ctx, "R4-grid", f"RasterInterpolant[paths,{kinds},{d},{lims},{flip},"
                f"{sigma}]", lift(ctx, body), want)


def cases(ctx):
    """Rasters dated in another order, beyond the origin, and files of larger cells."""
    r = "R4-grid"
    days = [add(date("d0"), 86400 * k) for k in (6, 0, 9)]
    xi = add(date("d0"), 86400 * 2)
    for (bx, by), s in itertools.product(
            (((0.0, 3.0), (0.0, 2.0)), ((-7.0, -4.0), (-5.0, -3.0)),
             ((-1.0, 2.0), (-1.0, 1.0))), ((1, -1), (-1, 1))):
        g = U(bx, by, *s)
        zs = [V.sym_array(f"g{k}", (2, 3)) for k in range(3)]

        def body(l):
            o = l.construct(l.prog.cls("RasterInterpolant"), [[
                g.raster(l, z.copy(), datetime=t) for z, t in zip(zs, days)]], {})
            return shown(l, l.call(o, [xi], {}))
        C.check(ctx, r, f"RasterInterpolant[dates of rasters,{bx},{s}]", lift(ctx, body), [
            cells(lambda *v: mean_sigma(v, [0, 6], 2)[0], zs[1], zs[0]), g.xlim, g.ylim,
            xi])
    x = [2.0, 5.0]
    # one raster reversed with respect to the other
    for s, t in itertools.product(itertools.product((1, -1), repeat=2), repeat=2):
        gs = [U((1.0, 4.0), (-2.0, 0.0), *s), U((1.0, 4.0), (-2.0, 0.0), *t)]
        zs = [V.sym_array(f"g{k}", (2, 3)) for k in range(2)]
        ss = [V.sym_array(f"s{k}", (2, 3), "pos") for k in range(2)]
        turn = [[slice(None, None, a * b) for a, b in zip(s, t)][::-1]]
        zt, st = ([v[0], V.Arr(v[1].data[tuple(turn[0])].copy(), (2, 3), "f")]
                  for v in (zs, ss))

        def reversed_(l):
            given = [[g.raster(l, z.copy()) for g, z in zip(gs, v)] for v in (zs, ss)]
            out = l.call(interpolant(l, *given, x), [3.0], {"return_sigma": True})
            return [shown(l, v)[:3] for v in l.iterate(out)], [
                shown(l, o)[:3] for v in given for o in v]
        C.check(ctx, r, f"RasterInterpolant[reversed,{s},{t}]", lift(ctx, reversed_), (
            [[cells(lambda *v: mean_sigma(v, x, 3.0)[0], *zt), gs[0].xlim, gs[0].ylim],
             [cells(lambda a, b, p, q: mean_sigma((a, b), x, 3.0, (p, q))[1], *zt, *st),
              gs[0].xlim, gs[0].ylim]],
            [[z, g.xlim, g.ylim] for v in (zs, ss) for g, z in zip(gs, v)]))
    for kinds, s in itertools.product(("ff", "fn", "nf"), ((1, -1), (-1, 1))):
        lims = [lim[::k] for lim, k in zip(((-2.0, 4.0), (1.0, 5.0)), s)]
        zs = [V.sym_array(f"g{k}", (2, 3)) if c == "f" else T.sym("number")
              for k, c in enumerate(kinds)]

        def read(l):
            F_ = F.Gdal(l)
            ms = []
            for k, z in enumerate(zs):
                if isinstance(z, V.Arr):
                    F_.files[f"m{k}"] = F.Data([z.copy()], (
                        lims[0][0], 2.0 * s[0], 0.0, lims[1][0], 0.0, 2.0 * s[1]))
                    z = f"m{k}"
                ms.append(z)
            return shown(l, l.call(interpolant(l, ms, None, x), [3.0], {}))[:3]
        C.check(ctx, r, f"RasterInterpolant[files of larger cells,{kinds},{s}]",
                lift(ctx, read), [cells(lambda *v: mean_sigma(v, x, 3.0)[0], *zs),
                                  SG.farr(*lims[0]), SG.farr(*lims[1])])


def overlap(lim, k, n, box):
    d = (lim[1] - lim[0]) / n
    a, b = sorted((lim[0] + k * d, lim[0] + (k + 1) * d))
    return a < box[1] and b > box[0]


def crop(g, box):
    return ([j for j in range(g.nx) if overlap(g.x, j, g.nx, box[0])],
            [i for i in range(g.ny) if overlap(g.y, i, g.ny, box[1])])


def edge(lim, ks, n):
    d = (lim[1] - lim[0]) / n
    return tuple(sorted((lim[0] + min(ks) * d, lim[0] + (max(ks) + 1) * d))) if d > 0 else \
        tuple(sorted((lim[0] + min(ks) * d, lim[0] + (max(ks) + 1) * d)))
