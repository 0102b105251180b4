"""C05: what a grid or raster has computed before never shows in later answers."""
from ..spec import grid as SG
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from ..vg.interp import PyError
from .c06 import lift, method

ATTRS = ("size", "shape", "d", "min", "max", "box2d", "x", "y", "X", "Y")


def run(ctx):
    ctx.rule("R1-grid-history", "after any change of a grid whose coordinates were "
             "already asked for, every query equals that of a new grid with the same "
             "limits and size")
    ctx.rule("R2-raster-history", "after any change of a raster whose coordinates and "
             "interpolator were already used, every query equals that of a new raster "
             "with the same array and limits")
    ctx.rule("R3-independent", "changing a copy, a subset or the grid of a raster leaves "
             "the answers of the raster as they were, and the reverse")
    f = SG.farr
    a = [T.sym(f"l{i}", (), ("range", 50.0 + 10 * i, 58.0 + 10 * i)) for i in range(4)]
    dx, dy, dz = (T.sym(k) for k in ("dx", "dy", "dz"))
    setx = lambda l, k: l.setattr(k, "xlim", f(a[0], a[1]))     # noqa: E731
    sety = lambda l, k: l.setattr(k, "ylim", f(a[3], a[2]))     # noqa: E731
    flipx = lambda l, k: l.setattr(k, "xlim", f(a[1], a[0]))    # noqa: E731
    flipy = lambda l, k: l.setattr(k, "ylim", f(a[2], a[3]))    # noqa: E731

    def call(name, *args, **kw):
        return lambda l, k: method(l, k, name, *[
            v.copy() if isinstance(v, V.Arr) else v for v in args], **kw)

    common = [("xlim set", [setx]), ("ylim set", [sety]), ("xlim reversed", [flipx]),
              ("limits in turn", [setx, use_grid, flipx]),
              ("y limits in turn", [sety, use_grid, flipy]),
              ("both limits set", [setx, sety]), ("shift x", [call("shift", dx=dx)]),
              ("shift y", [call("shift", dy=dy)]),
              ("shift", [call("shift", dx, dy)]),
              ("shift, limits set, shift", [call("shift", dx=dx), sety,
                                            call("shift", dy=dy)]),
              ("limits set, used, shift", [setx, use_grid, call("shift", dx, dy)])]
    grid = common + [
        ("size set", [lambda l, k: l.setattr(k, "size", f(2, 5, kind="i"))]),
        ("size set in x", [lambda l, k: l.setattr(k, "size", f(3, 3, kind="i"))]),
        ("size set in y", [lambda l, k: l.setattr(k, "size", f(4, 2, kind="i"))]),
        ("resize", [call("resize", 2)]),
        ("resize, used, resize", [call("resize", 3), use_grid, call("resize", 0.5)]),
        ("shift, resize", [call("shift", dx, dy), call("resize", 0.5)]),
        ("size set, limits set", [lambda l, k: l.setattr(k, "size", f(3, 4, kind="i")),
                                  use_grid, setx, sety])]
    P = V.sym_array("P", (T.dim("n"), 2))
    queries = {a: (lambda l, k, a=a: l.getattr(k, a)) for a in ATTRS}
    queries["conversions"] = lambda l, k: tuple(method(l, k, m, P.copy()) for m in (
        "xyz_to_uv", "uv_to_xyz", "rowcol_to_xy", "xy_to_rowcol"))
    queries["crop_extent"] = lambda l, k: method(l, k, "crop_extent")
    queries["copy"] = lambda l, k: (lambda c: tuple(l.getattr(c, a) for a in ATTRS))(
        method(l, k, "copy"))
    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(4, 3), sx=sx, sy=sy)
        o = f"x{'+' if sx > 0 else '-'}"
        for nm, ops in grid:
            history(ctx, "R1-grid-history", "Grid", f"{nm};{o}", lambda l: g.build(l),
                    use_grid, ops, fresh_grid, queries)
    n = T.dim("n")
    S = V.sym_array("S", (n, 2))
    sx_, sy_ = V.sym_array("qx", (3,)), V.sym_array("qy", (2,))
    raster_queries = dict(queries)
    raster_queries.update({
        "zlim": lambda l, k: l.getattr(k, "zlim"),
        "box3d": lambda l, k: l.getattr(k, "box3d"),
        "grid": lambda l, k: (lambda c: tuple(l.getattr(c, a) for a in ATTRS))(
            l.getattr(k, "grid")),
        "gradient": lambda l, k: method(l, k, "gradient"),
        "sample": lambda l, k: method(l, k, "sample", S.copy(), bounds_error=False,
                                      fill_value=None),
        "sample nearest": lambda l, k: method(l, k, "sample", S.copy(), order=0,
                                              bounds_error=False),
        "sample grid": lambda l, k: method(l, k, "sample", (sx_.copy(), sy_.copy()),
                                           grid=True, bounds_error=False),
        "array": lambda l, k: l.getattr(k, "array"),
    })
    z = V.sym_array("z", (3, 4))
    z2 = V.sym_array("zz", (3, 4))
    z3 = V.sym_array("z3", (5, 2))
    z4 = V.sym_array("z4", (4, 3))
    nan = float("nan")
    zn = z.copy()
    for i in range(3):
        zn.data[i, 0] = nan
    zn.data[2, :] = nan

    def sa(v):
        return lambda l, k: l.setattr(k, "array", v.copy())
    new_grid = SG.G(size=(3, 2), prefix="other_")

    def resample(l, k):
        return method(l, k, "resample", new_grid.build(l), bounds_error=False)

    def inside(g):          # crop to cells 1..2 and rows 1..2
        return call("crop", xlim=f(g.xc(1), g.xc(2)), ylim=f(g.yc(1), g.yc(2)))

    for sx, sy in ((1, -1), (-1, 1)):
        g = SG.G(size=(4, 3), sx=sx, sy=sy)
        o = f"x{'+' if sx > 0 else '-'}"
        raster = common + [
            ("array set", [sa(z2)]), ("array of another shape set", [sa(z3)]),
            ("transposed array set", [sa(z4)]),
            ("transposed array set, shift", [sa(z4), use_raster, call("shift", dx, dy)]),
            ("arrays set in turn", [sa(z3), use_raster, sa(z2)]),
            ("shift z", [call("shift", dz=dz)]), ("shift xyz", [call("shift", dx, dy, dz)]),
            ("crop", [inside(g)]), ("crop values", [call("crop", zlim=(-1, 1))]),
            ("crop, shift", [inside(g), use_raster, call("shift", dx, dy)]),
            ("resample", [resample]), ("resample, used, shift", [
                resample, use_raster, call("shift", dx, dy)]),
            ("array set, limits set", [sa(z3), setx, use_raster, sety]),
            ("resize", [call("resize", 2)]),
            ("resize, shift", [call("resize", 0.5, order=0), use_raster,
                               call("shift", dx, dy)]),
            ("fill_crevasses", [call("fill_crevasses", maximum={"size": 3},
                                     gaussian={"sigma": 2})]),
            ("fill_circle", [lambda l, k: method(l, k, "fill_circle", (g.xc(1), g.yc(1)),
                                                 T.mul(abs1(g.dx), 1.2), value=-1)]),
        ]
        for nm, ops in raster:
            history(ctx, "R2-raster-history", "Raster", f"{nm};{o}",
                    lambda l: g.raster(l, z.copy()), use_raster, ops, fresh_raster,
                    raster_queries)
        history(ctx, "R2-raster-history", "Raster", f"crop to data;{o}",
                lambda l: g.raster(l, zn.copy()), use_raster, [call("crop_to_data")],
                fresh_raster, raster_queries)
        history(ctx, "R2-raster-history", "Raster", f"crop to data, shift;{o}",
                lambda l: g.raster(l, zn.copy()), use_raster,
                [call("crop_to_data"), call("shift", dx, dy)],
                fresh_raster, raster_queries)
        # a copy or the grid of a used raster starts anew, and stays apart
        for nm, derive in (("copy", lambda l, k: method(l, k, "copy")),
                           ("grid", lambda l, k: l.getattr(k, "grid")),
                           ("subset", lambda l, k: l.getitem(k, (slice(0, 3),
                                                                 slice(0, 4))))):
            for who in ("derived", "original"):
                names = ATTRS + (("array",) if nm != "grid" else ())

                def independent(l):
                    k = g.raster(l, z.copy())
                    use_raster(l, k)
                    d = derive(l, k)
                    use_grid(l, d)
                    keep, change = (k, d) if who == "derived" else (d, k)
                    before = tuple(l.getattr(keep, a) for a in names)
                    before = tuple(v.copy() if isinstance(v, V.Arr) else v
                                   for v in before)
                    method(l, change, "shift", dx, dy)
                    setx(l, change)
                    if "array" in names:
                        l.setattr(change, "array", z3.copy())
                    else:
                        l.setattr(change, "size", f(2, 5, kind="i")) if nm == "grid" \
                            and change is d else None
                    return before, tuple(l.getattr(keep, a) for a in names)
                pair(ctx, "R3-independent", f"Raster.{nm}[{who} changed,{o}]",
                     lift(ctx, independent), names)
    ctx.need("R1-grid-history", 20)
    ctx.need("R2-raster-history", 20)
    ctx.assumptions += [
        "real arithmetic; numpy semantics as tabulated in glint/vg",
        "scipy interpolators are functions of their arguments",
        "elements of an array written in place from outside are not a tracked change",
    ]


def abs1(t):
    return T.app("abs", t)


def use_grid(l, k):
    for a in ATTRS:
        l.getattr(k, a)


def use_raster(l, k):
    use_grid(l, k)
    for a in ("Zf", "zlim", "grid", "box3d"):
        l.getattr(k, a)
    return None


def fresh_grid(l, k):
    return l.construct(k.cls, [copy(l.getattr(k, "size"))], dict(
        x=copy(l.getattr(k, "xlim")), y=copy(l.getattr(k, "ylim"))))


def fresh_raster(l, k):
    return l.construct(k.cls, [copy(l.getattr(k, "array"))], dict(
        x=copy(l.getattr(k, "xlim")), y=copy(l.getattr(k, "ylim"))))


def copy(v):
    return v.copy() if isinstance(v, V.Arr) else v


def history(ctx, rule, cls, name, start, use, ops, fresh, queries):
    """Lift one history, then every query on the used and on a new object."""
    def body(l):
        k = start(l)
        use(l, k)
        for op in ops:
            op(l, k)
        new = fresh(l, k)
        res = {}
        base = len(l.taint)
        for q, ask in queries.items():
            n = len(l.taint)
            try:
                got, want = ask(l, k), ask(l, new)
                res[q] = (got, want, l.taint[n] if len(l.taint) > n else None)
            except (V.Unsupported, PyError) as e:
                res[q] = (None, None, str(e) or type(e).__name__)
        return res, (l.taint[0] if base else None)
    out = lift(ctx, body)
    for q in queries:
        nm = f"{cls}.{q}[after {name}]"
        if out.failed or out.error:
            ctx.oblige(rule, nm, None, out.failed or out.error)
            continue
        res, spoiled = out.value
        got, want, why = res[q]
        if why or spoiled:
            ctx.oblige(rule, nm, None, f"parts were not lifted: {why or spoiled}")
            continue
        live = True
        for c, _, _, _ in C.raise_conditions(out, sure_only=False):
            if not T.is_opaque(c):
                live = T.land(live, T.lnot(c))
        r = C.same(got, want, live, allow_opaque=True)
        ctx.oblige(rule, nm, r.ok, r.text())


def pair(ctx, rule, construct, out, names=None):
    if out.failed or out.error or not isinstance(out.value, (tuple, list)):
        return ctx.oblige(rule, construct, None, out.failed or out.error or "gated")
    got, want = out.value
    C.check(ctx, rule, construct, out, want, get=lambda v: v[0], allow_opaque=True,
            raises=False)
