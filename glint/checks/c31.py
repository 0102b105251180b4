"""C31: what is plotted is drawn at its coordinates."""
import itertools
import math

from ..spec import camera as S
from ..spec import grid as SG
from ..spec.plots import Plots, arranged, renamed
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from . import c16, c17
from .c06 import lift, method
from .c14 import timeline
from .c22 import View

NAN = float("nan")
ARROW = ("color", "scale", "scale_units", "angles")
ARROWS = {"angles": "xy", "scale": 1, "scale_units": "xy"}
INDEX = (("all", None, range(4)), ("list", [3, 1], (3, 1)),
         ("slice", slice(1, None), (1, 2, 3)), ("array", "array", (0, 2)))


def run(ctx):
    ctx.rule("R1-frames", "limits of axes are those of the image or grid, with rows "
             "downwards")
    ctx.rule("R2-images", "images, rasters, tiles and boxes cover their extents, first row "
             "first")
    ctx.rule("R3-errors", "arrows point from observed to predicted image coordinates, of "
             "the selected and of the other points, in the styles asked for")
    ctx.rule("R4-tracks", "tracks, velocities and uncertainties are drawn at their "
             "coordinates")
    ctx.rule("R5-frames", "each frame of an animation has the image, positions and "
             "velocities of its time")
    frames(ctx)
    extents(ctx)
    errors(ctx)
    polynomials(ctx)
    optimized(ctx)
    converted(ctx)
    tracks(ctx)
    followed(ctx)
    animated(ctx)
    ctx.need("R2-images", 2)
    ctx.need("R3-errors", 2)


def given(index):
    if isinstance(index, str):
        return SG.farr(0, 2, kind="i")
    return c16.ix(index)


def ax(x=None, y=None, *shown):
    return [None if x is None else list(x), None if y is None else list(y), [list(s) for s in shown]]


def check(ctx, r, nm, out, want, **kw):
    """Compare what is drawn, with artists in the same arrangement."""
    if isinstance(want, tuple):
        if isinstance(want[1], list) and want[1] and isinstance(want[1][0], list):
            want = (want[0], [arranged(a)[0] for a in want[1]])      # frames
        else:
            axes, places = arranged(want[0])
            want = (axes, renamed(places, want[1]), *want[2:])
    C.check(ctx, r, nm, out, want, **kw)


# -- limits and extents -------------------------------------------------------------------
def frames(ctx):
    r = "R1-frames"
    sz = V.to_arr([T.sym("nx", (), "posint"), T.sym("ny", (), "posint")])
    sz.kind = "i"
    cam = S.Cam("none")
    cam.sz = sz
    x, y = S.vec("x", 2), S.vec("y", 2)

    def image(l):
        return l.construct(l.prog.cls("Image"), ["x.jpg"], dict(
            cam=cam.build(l), datetime=T.sym("t", (), "datetime")))

    def grid(l):
        return l.construct(l.prog.cls("Grid"), [(4, 3)], dict(x=x.copy(), y=y.copy()))
    nx, ny = sz.data
    for nm, make, want in (
            ("Camera", cam.build, ax((0, nx), (ny, 0))),
            ("Image", image, ax((0, nx), (ny, 0))),
            ("Grid", grid, ax(x.data, (y.data[1], y.data[0])))):
        def body(l):
            p = Plots(l, 1)
            method(l, make(l), "set_plot_limits")
            return p.drawn()
        check(ctx, r, f"{nm}.set_plot_limits", lift(ctx, body), [want])


def extents(ctx):
    r = "R2-images"
    for bands in (0, 3):
        z = V.sym_array("z", (3, 5, bands) if bands else (3, 5))

        def image(l, **kw):
            p = Plots(l)
            cam = S.Cam("none", sizes=(5, 3))
            o = l.construct(l.prog.cls("Image"), ["x.jpg"], dict(
                cam=cam.build(l), datetime=T.sym("t", (), "datetime")))
            l.setattr(o, "array", z.copy())
            out = method(l, o, "plot", **kw)
            return p.both(out, ("alpha",))
        check(ctx, r, f"Image.plot[{bands} bands]", lift(ctx, image), ([ax(None, None, (
            "image", {"image": z, "columns": [0, 5], "rows": [0, 3]}, {}))], 0))
        check(ctx, r, f"Image.plot[{bands} bands,options]", lift(
            ctx, lambda l: image(l, alpha=0.3, extent=(1, 4, 2, -1))), ([ax(None, None, (
                "image", {"image": z, "columns": [1, 4], "rows": [-1, 2]},
                {"alpha": 0.3}))], 0))
        # tiles and boxes
        b = S.vec("b", 4)
        x0, y0, x1, y1 = b.data

        def tile(l, own, **kw):
            p = Plots(l)
            o = observer(l)
            a = p.subplots(ncols=2)[1] if own else []
            out = method(l, o, "plot_tile", tile=z.copy(), **kw,
                                 **({"axes": a[0]} if own else {}))
            return p.both(out, ("alpha",))
        for own in (False, True):
            for nm, kw, cols, rows in (("box", {"box": b.copy()}, [x0, x1], [y0, y1]),
                                       ("no box", {"alpha": 0.3}, [0, 5], [0, 3])):
                shown = ax(None, None, ("image", {"image": z, "columns": cols, "rows": rows},
                                        {k: v for k, v in kw.items() if k == "alpha"}))
                check(ctx, r, f"Observer.plot_tile[{bands} bands,{nm},axes={own}]", lift(
                    ctx, lambda l: tile(l, own, **kw)),
                    ([shown] + ([ax()] if own else []), 0))

    def box(l, own):
        p = Plots(l)
        o = observer(l)
        a = p.subplots(ncols=2)[1] if own else []
        out = method(l, o, "plot_box", b.copy(), color="red",
                             **({"axes": a[0]} if own else {}))
        return p.both(out, ("color",))
    b = S.vec("b", 4)
    x0, y0, x1, y1 = b.data
    for own in (False, True):
        check(ctx, r, f"Observer.plot_box[axes={own}]", lift(ctx, lambda l: box(l, own)), (
            [ax(None, None, ("box", {"x": [x0, x1], "y": [y0, y1]}, {"color": "red"}))]
            + ([ax()] if own else []), 0))
    # rasters
    z, w = V.sym_array("z", (3, 4)), V.sym_array("w", (3, 4))
    for nm, x, y in (("down", (2.0, 10.0), (7.0, 1.0)), ("up", (2.0, 10.0), (1.0, 7.0)),
                     ("left", (10.0, 2.0), (7.0, 1.0))):
        for other in (False, True):
            def raster(l):
                p = Plots(l)
                o = l.construct(l.prog.cls("Raster"), [z.copy()], dict(x=x, y=y))
                out = method(l, o, "plot", cmap="gray",
                                     **({"array": w.copy()} if other else {}))
                return p.both(out, ("cmap",))
            check(ctx, r, f"Raster.plot[{nm},array={other}]", lift(ctx, raster), (
                [ax(None, None, ("image", {"image": w if other else z, "columns": list(x),
                                           "rows": list(y)}, {"cmap": "gray"}))], 0))


# -- errors -------------------------------------------------------------------------------
STYLES = (("default", {}, {"color": "red"}, {"color": "gray"}),
          ("colors", {"selected": "blue", "unselected": "black"}, {"color": "blue"},
           {"color": "black"}),
          ("hidden", {"unselected": None}, {"color": "red"}, None),
          ("none", {"selected": None, "unselected": None}, None, None),
          ("options", {"selected": {"color": "pink", "scale": 0.5}, "unselected": {
              "color": "white"}, "scale": 2}, {"color": "pink", "scale": 0.5},
           {"color": "white", "scale": 2}))


def arrows(uv, duv, ks, n, chosen, others, rest=()):
    """Arrows (others first), and what is returned."""
    out, names = list(rest), {}
    left = [k for k in range(n) if k not in ks]
    for label, idx, style in (("unselected", left, others), ("selected", ks, chosen)):
        if style is None or not len(idx):
            names[label] = None
            continue
        names[label] = len(out)
        out.append(["arrows", {
            "x": [uv[k][0] for k in idx], "y": [uv[k][1] for k in idx],
            "u": [duv[k][0] for k in idx], "v": [duv[k][1] for k in idx], "c": None},
            {"color": style["color"], "scale": style.get("scale", 1),
             "scale_units": "xy", "angles": "xy"}])
    return out, names


def minus(p, o):
    return [[T.sub(a, b) for a, b in zip(x, y)] for x, y in zip(p, o)]


def errors(ctx):
    r = "R3-errors"
    X, U = V.sym_array("X", (4, 3)), V.sym_array("U", (4, 2))
    cam = S.Cam("none", sizes=(40, 30))
    duv = minus([S.project(cam, list(x))[0] for x in X.data], U.data.tolist())

    def points(l, index, figures=1, **kw):
        p = Plots(l, figures)
        o = l.construct(l.prog.cls("Points"), [], dict(
            cam=cam.build(l), uv=U.copy(), xyz=X.copy()))
        out = method(l, o, "plot", **kw, **(
            {} if index is None else {"index": given(index)}))
        return p.both(out, ARROW)
    for (nm, index, ks), (sn, kw, chosen, others) in itertools.product(INDEX, STYLES):
        shown, names = arrows(U.data.tolist(), duv, ks, 4, chosen, others)
        check(ctx, r, f"Points.plot[{nm},{sn}]", lift(
            ctx, lambda l: points(l, index, **kw)),
            ([ax(None, None, *shown)] if shown else [], names))
    shown, names = arrows(U.data.tolist(), duv, range(4), 4, {"color": "red"}, None)
    check(ctx, r, "Points.plot[new figure]", lift(ctx, lambda l: points(l, None, 0)),
            ([ax((0, 40), (30, 0), *shown)], names))
    # matches
    for form in ("Matches", "RotationMatches"):
        uvs = [c16.image_points("ua"), c16.image_points("ub")]
        cams = c16.pair()
        for ci, (nm, index, ks), figures in itertools.product((0, 1), INDEX[:3], (0, 1)):
            if nm != "list" and not figures:
                continue

            def matches(l, by, **kw):
                p = Plots(l, figures)
                built = [c.build(l) for c in cams]
                o = l.construct(l.prog.cls(form), [], dict(
                    cams=tuple(built), uvs=[u.copy() for u in uvs]))
                out = method(l, o, "plot", cam=built[ci] if by else ci, **kw, **(
                    {} if index is None else {"index": given(index)}))
                return p.both(out, ARROW)
            d = minus([c16.predicted(form, cams, uvs, ci, k) for k in range(4)],
                      uvs[ci].data.tolist())
            for sn, kw, chosen, others in STYLES[:1] if nm == "slice" else STYLES:
                shown, names = arrows(uvs[ci].data.tolist(), d, ks, 4, chosen, others)
                w, h = (40, 30) if ci == 0 else (60, 44)
                lim = () if figures else ((0, w), (h, 0))
                check(ctx, r, f"{form}.plot[camera {ci},{nm},{sn},{figures}]", lift(
                    ctx, lambda l: matches(l, sn == "colors", **kw)),
                    ([ax(*(lim or (None, None)), *shown)] if shown or lim else [], names))
    # lines
    view = View((12, 8), (10, 11), (10.0, -20.0, 5.0), (25, -10, 8), c=(0.5, -0.3))
    world = [[(5.0, 0.0, 0.0), (10.0, 2.0, 6.0), (14.0, 1.0, 0.0)],
             [(0.0, 30.0, 9.0), (9.0, 20.0, 8.0), (24.0, 20.0, 9.0)]]
    obs = [[(2.0, 3.0)], [(6.3, 4.4), (11.0, 1.0)]]
    for (nm, index, ks), (sn, kw, lo, lp) in itertools.product(
            (("all", None, (0, 1, 2)), ("list", [2, 0], (2, 0))),
            (("default", {}, "green", "yellow"),
             ("colors", {"observed": "red", "predicted": {"color": "blue"}}, "red", "blue"),
             ("observed only", {"predicted": None}, "green", None),
             ("arrows only", {"predicted": None, "observed": None}, None, None))):
        def lines(l, plot):
            p = Plots(l, 0)
            o = l.construct(l.prog.cls("Lines"), [], dict(
                cam=view.build(l), uvs=[V.to_arr([list(q) for q in u]) for u in obs],
                xyzs=[V.to_arr([list(q) for q in w]) for w in world], density=2.0))
            if not plot:
                return V.to_arr(method(l, o, "predicted")).data.tolist()
            out = method(l, o, "plot", **kw, **(
                {} if index is None else {"index": given(index)}))
            shown, names = p.both(out, ARROW, ("line", "arrows"))
            if isinstance(names, dict) and isinstance(names.get("predicted"), list):
                names["predicted"].sort()
            return shown, names
        pr = lift(ctx, lambda l: lines(l, False)).value
        flat = [list(q) for u in obs for q in u]
        if not isinstance(pr, list) or len(pr) != 3:
            pr = [[NAN] * 2] * 3
        rest = [["line", {"x": [q[0] for q in u], "y": [q[1] for q in u]}, {"color": lo}]
                for u in obs] if lo else []
        names = {"observed": list(range(len(rest))) if lo else None, "predicted": None}
        out = lift(ctx, lambda l: lines(l, True))
        if lp:
            # the lines drawn are those that image points are matched to
            try:
                got = [i for i in out.value[0][0][2] if i[0] == "line" and
                       i[2].get("color") == lp]
                near = [min(abs(a - x) + abs(b - y) for i in got for a, b in zip(
                    i[1]["x"], i[1]["y"])) for x, y in pr]
                if max(near) < 1e-9:
                    names["predicted"] = list(range(len(rest), len(rest) + len(got)))
                    rest += got
            except Exception:    # as drawn: nothing to compare it to
                pass
            if names["predicted"] is None:
                rest.append(["line", {}, {"color": lp}])
        shown, more = arrows(flat, minus(pr, flat), ks, 3, {"color": "red"},
                             {"color": "gray"}, rest)
        check(ctx, r, f"Lines.plot[{nm},{sn}]", out, (
            [ax((0, 12), (8, 0), *shown)], {**names, **more}))


def polynomials(ctx):
    r = "R3-errors"
    xy = V.to_arr([[float(k), T.sym(f"y{k}")] for k in range(4)])
    coeffs = S.vec("a", 2)
    line = [T.add(T.mul(coeffs.data[0], k), coeffs.data[1]) for k in range(4)]
    for (nm, index, ks), (sn, kw, chosen, others, fit) in itertools.product(
            INDEX, (("default", {}, "red", "gray", "red"),
                    ("colors", {"selected": "blue", "unselected": {"c": "black"},
                                "predicted": {"color": "pink"}}, "blue", "black", "pink"),
                    ("hidden", {"unselected": None, "predicted": None}, "red", None, None),
                    ("line only", {"unselected": None, "selected": None}, None, None,
                     "red"))):
        def body(l):
            p = Plots(l, 1)
            o = l.construct(l.prog.cls("Polynomial"), [xy.copy()], dict(deg=1))
            out = method(l, o, "plot", params=coeffs.copy(), **kw, **(
                {} if index is None else {"index": given(index)}))
            return p.both(out, ("color",))
        left = [k for k in range(4) if k not in ks]
        shown, names = [], {}
        for label, idx, color in (("unselected", left, others), ("selected", ks, chosen)):
            names[label] = None
            if color and len(idx):
                names[label] = len(shown)
                shown.append(["points", {
                    "x": [float(k) for k in idx], "y": [xy.data[k, 1] for k in idx],
                    "c": None, "s": None}, {"color": color}])
        names["predicted"] = [len(shown)] if fit else None
        if fit:
            shown.append(["line", {"x": [0.0, 1.0, 2.0, 3.0], "y": line}, {"color": fit}])
        check(ctx, r, f"Polynomial.plot[{nm},{sn}]", lift(ctx, body), (
            [ax(None, None, *shown)] if shown else [], names))


def optimized(ctx):
    r = "R3-errors"
    pb = c17.Problem(["none", "none"], [(0, 4), (1, 2), (0, 1)], [{"viewdir": True}, {}])
    one = c17.Problem(["none"], [(0, 4)], [{"viewdir": True}])
    new = T.sym
    for nm, q, kw in (
            ("first camera", pb, {}), ("second camera", pb, {"cam": 1}),
            ("by camera", pb, {"cam": "object"}), ("parameters", pb, {"params": True}),
            ("one control", one, {}), ("one control,list", one, {"index": [3, 1]}),
            ("one control,array", one, {"index": "array"}),
            ("one control,parameters", one, {"params": True, "selected": "blue",
                                             "unselected": None, "index": [2]})):
        vals = q.values()
        j = 1 if kw.get("cam") else 0

        def body(l):
            p = Plots(l, 1)
            o = q.build(l)
            k = dict(kw)
            if k.get("cam") == "object":
                k["cam"] = q.built[1]
            if "params" in k:
                k["params"] = V.to_arr(list(vals))
            if "index" in k:
                k["index"] = given(k["index"])
            out = l.iterate(method(l, o, "plot", **k))
            return (*p.both(out, ARROW), q.state(l))
        at = q.predicted(vals if "params" in kw else None)
        start, shown, names = 0, [], []
        for (c, n), u in zip(q.controls, q.U):
            pr = at[start:start + n]
            start += n
            if c != j:
                continue
            ks = {"array": (0, 2)}.get(kw.get("index"), kw.get("index")) if not isinstance(
                kw.get("index"), list) else kw["index"]
            shown, m = arrows(u.data.tolist(), minus(pr, u.data.tolist()),
                              range(n) if ks is None else ks, n,
                              {"color": kw.get("selected", "red")},
                              {"color": "gray"} if "unselected" not in kw else None, shown)
            names.append(m)
        check(ctx, r, f"Cameras.plot[{nm}]", c17.lifted(ctx, body), (
            [ax(None, None, *shown)], names, q.vectors()))
    # weights
    w = [T.sym(f"w{i}", (), "pos") for i in range(4)]
    for nm, ws, index, ks in (("all", w, None, range(4)), ("list", w, [3, 1], (3, 1)),
                              ("none", None, None, range(4)),
                              ("none,list", None, [2, 0], (2, 0))):
        q = c17.Problem(["none"], [(0, 4)], [{"viewdir": True}], weights=ws)

        def body(l):
            p = Plots(l, 1)
            out = method(l, q.build(l), "plot_weights", **(
                {} if index is None else {"index": given(index)}))
            for a in p.artists:
                for k in ("c", "s"):
                    v = a.state[k]
                    a.state[k] = V.to_arr(v).data.ravel().tolist()
            return p.both(out)
        s = 0
        for v in ws or ():
            s = T.add(s, v)
        val = [1.0 if ws is None else T.div(T.mul(w[k], 4), s) for k in ks]
        check(ctx, r, f"Cameras.plot_weights[{nm}]", c17.lifted(ctx, body), ([ax(
            None, None, ["points", {"x": [q.U[0].data[k, 0] for k in ks],
                                    "y": [q.U[0].data[k, 1] for k in ks],
                                    "c": val, "s": val}, {}])], 0))


def converted(ctx):
    r = "R3-errors"
    uv, d = V.sym_array("uv", (3, 2)), V.sym_array("d", (3, 2))
    for nm, kw, color in (("default", {}, "red"), ("color", {"color": "blue"}, "blue")):
        def body(l):
            p = Plots(l, 1)
            cls = l.prog.cls("Converter")
            o = V.Obj(cls, {})
            o.attrs["uv"] = uv.copy()
            o.attrs["residuals"] = V.Native(lambda **k: d.copy())
            out = method(l, o, "plot", **kw)
            return p.both(out, ARROW)
        shown, _ = arrows(uv.data.tolist(), d.data.tolist(), range(3), 3,
                          {"color": color}, None)
        check(ctx, r, f"Converter.plot[{nm}]", lift(ctx, body), (
            [ax(None, None, *shown)], 0))


# -- tracks -------------------------------------------------------------------------------
N, M = 3, 4
MEANS = V.sym_array("M", (N, M, 6))
SIGMA = V.sym_array("S", (N, M, 6), ("range", 0.1, 2))
CHOICE = (("all", None, range(N)), ("one", 1, (1,)), ("list", [2, 0], (2, 0)),
          ("slice", slice(1, None), (1, 2)))


def track(l, **kw):
    return l.construct(l.prog.cls("Tracks"), [], {
        "datetimes": V.to_arr(timeline(M)), "time_unit": 1, "means": MEANS.copy(),
        "sigmas": SIGMA.copy(), **kw})


def col(a, i, k):
    return [a.data[i, j, k] for j in range(M)]


def tracks(ctx):
    r = "R4-tracks"
    times = timeline(M)
    for nm, sel, ks in CHOICE:
        c = {} if sel is None else {"tracks": given(sel)}
        for sn, kw, mean, start, sigma in (
                ("default", {}, "black", "black", None),
                ("mean", {"mean": {"color": "red"}, "start": False}, "red", None, None),
                ("start", {"mean": False, "start": {"color": "blue"}}, None, "blue", None),
                ("all", {"mean": {"color": "red"}, "sigma": True}, "red", "red", "red"),
                ("sigma", {"mean": False, "start": False, "sigma": {"color": "green"}},
                 None, None, "green"), ("none", {"mean": False, "start": False}, None, None,
                                        None)):
            def body(l):
                p = Plots(l)
                out = method(l, track(l), "plot_xy", **c, **kw)
                return p.both(out, ("color",))
            shown, names = [], {}
            if mean:
                names["mean"] = [len(shown) + k for k in range(len(ks))]
                shown += [["line", {"x": col(MEANS, i, 0), "y": col(MEANS, i, 1)},
                           {"color": mean}] for i in ks]
            if start:
                names["start"] = [len(shown)]
                shown.append(["line", {"x": [MEANS.data[i, 0, 0] for i in ks],
                                       "y": [MEANS.data[i, 0, 1] for i in ks]},
                              {"color": start}])
            if sigma:
                names["sigma"] = [len(shown) + k for k in range(len(ks))]
                shown += [["errors", {"x": col(MEANS, i, 0), "y": col(MEANS, i, 1),
                                      "xerr": col(SIGMA, i, 0), "yerr": col(SIGMA, i, 1)},
                           {"color": sigma}] for i in ks]
            check(ctx, r, f"Tracks.plot_xy[{nm},{sn}]", lift(ctx, body), (
                [ax(None, None, *shown)] if shown else [], names))

        def vxy(l):
            p = Plots(l)
            out = method(l, track(l), "plot_vxy", color="red", **c)
            return p.both(out, ("color", "angles"))
        shown = [["arrows", {"x": col(MEANS, i, 0), "y": col(MEANS, i, 1), "c": None,
                             "u": col(MEANS, i, 3), "v": col(MEANS, i, 4)},
                  {"color": "red", "angles": "xy"}] for i in ks]
        check(ctx, r, f"Tracks.plot_vxy[{nm}]", lift(ctx, vxy), (
            [ax(None, None, *shown)], list(range(len(ks)))))
        for dim, (sn, kw, mean, sigma) in itertools.product(range(3), (
                ("default", {}, "black", None),
                ("both", {"mean": {"color": "red"}, "sigma": True}, "red", "red"),
                ("sigma", {"mean": False, "sigma": {"facecolor": "blue"}}, None, "blue"))):
            def v1d(l):
                p = Plots(l)
                out = method(l, track(l), "plot_v1d", dim, **c, **kw)
                return p.both(out, ("color", "facecolor"))
            shown, names = [], {}
            if mean:
                names["mean"] = list(range(len(ks)))
                shown += [["line", {"x": times, "y": col(MEANS, i, 3 + dim)},
                           {"color": mean}] for i in ks]
            if sigma:
                names["sigma"] = [len(shown) + k for k in range(len(ks))]
                shown += [["band", {"x": times, **{nm: [
                    op(MEANS.data[i, j, 3 + dim], SIGMA.data[i, j, 3 + dim])
                    for j in range(M)] for nm, op in (("low", T.sub), ("high", T.add))}},
                    {"facecolor": sigma}] for i in ks]
            check(ctx, r, f"Tracks.plot_v1d[{nm},{dim},{sn}]", lift(ctx, v1d), (
                [ax(None, None, *shown)], names))


# -- animations ---------------------------------------------------------------------------
NX, NY = 14, 11
SIZES = [(NX, NY), (13, 12), (15, 10), (14, 13)]
VIEWS = [View(SIZES[k], (13, 12.5), (3.0, -4.0, 2.0), (3.0 * k, 1.5 - k, 2 * k))
         for k in range(4)]
PIXELS = [V.sym_array(f"p{k}", SIZES[k][::-1]) for k in range(4)]


def observer(l):
    times = timeline(4)
    ims = []
    for k in range(4):
        o = l.construct(l.prog.cls("Image"), [f"a/b/img_{k}.jpg"], dict(
            cam=VIEWS[k].build(l), datetime=times[k]))
        l.setattr(o, "array", PIXELS[k].copy())
        ims.append(o)
    return l.construct(l.prog.cls("Observer"), [ims], {})


def window(uv, size):
    """Pixels nearest to a box about a point: their boundaries and slices."""
    out = []
    for p, s in zip(uv, size):
        a = math.floor(p - s / 2 + 0.5)
        out.append((a, a + s))
    return out


def tile(k, box):
    (a, b), (c, d) = box
    return ["image", {"image": V.Arr(PIXELS[k].data[c:d, a:b].copy(), (d - c, b - a), "f"),
                      "columns": [a, b], "rows": [c, d]}, {}]


def seen(k, p):
    return [float(x) for x in S.project(VIEWS[k], list(p))[0]]


def play(l, p, a, kinds, keep=()):
    """What is drawn at first, and after each frame."""
    out = [p.drawn(keep, kinds)]
    fs = l.iterate(a.attrs["frames"])
    for f in fs:
        l.call(a.attrs["function"], [f], {})
        out.append(p.drawn(keep, kinds))
    return fs, out


def followed(ctx):
    r = "R5-frames"
    kinds = ("image", "line")

    def dot(uv):
        return ["line", {"x": [uv[0]], "y": [uv[1]]}, {}]

    def near(uv, size):
        return [uv[0] - size[0] / 2, uv[0] + size[0] / 2], [
            uv[1] + size[1] / 2, uv[1] - size[1] / 2]
    for nm, uv, size, fs in (("whole", (6.3, 5.6), (5, 4), None),
                             ("some", (7.2, 4.9), (4, 4), [1, 3]),
                             ("first last", (6.3, 5.6), (3, 5), [2, 0, 1]),
                             ("border", (3.2, 5.6), (5, 4), None),
                             ("corner", (3.1, 8.8), (6, 4), None),
                             ("leaving", (0.9, 5.6), (1, 2), None),
                             ("leaving right", (12.8, 5.2), (2, 2), None),
                             ("leaving below", (7.0, 9.9), (2, 2), None),
                             ("right border", (11.9, 5.2), (4, 4), [3, 0, 2]),
                             ("bottom border", (6.2, 10.8), (3, 4), [3, 0, 2]),
                             ("at the border of another", (11.9, 9.2), (4, 3), None),
                             ("center", None, (5, 4), None)):
        def animate(l):
            p = Plots(l)
            o = observer(l)
            a = method(l, o, "animate", size=size, **{k: v for k, v in (
                ("uv", None if uv is None else SG.farr(*uv)), ("frames", fs))
                if v is not None})
            return play(l, p, a, kinds)
        use = fs or [0, 1, 2, 3]
        at = uv or [n / 2 for n in SIZES[0]]
        d = inverse(VIEWS[use[0]], at)
        box = window(at, size)
        x, y = near(at, size)
        first = [tile(use[0], box), dot(at)]
        want = [[ax(None, None, *first), ax(x, y, *first)]]
        for k in use:
            q = seen(k, d)
            # pixels nearest to the box about the point
            b = window_of(q, size, SIZES[k])
            shown = tile(k, b)
            if not all(p > -0.5 * w and p < n + 0.5 * w for p, n, w in zip(
                    q, SIZES[k], size)):
                cols, rows = near(q, size)
                shown = ["image", {"image": V.full((size[1], size[0], 3), 255, "i"),
                                   "columns": cols, "rows": rows[::-1]}, {}]
            now = [shown, dot(q)]
            want.append([ax(*near(q, size), *now), ax(x, y, *now)])
        check(ctx, r, f"Observer.animate[{nm}]", lift(ctx, animate), (use, want),
                tol=1e-6)
    path = [(3.0 + 0.3 * k, 6.0 + k, 2.2 - 0.1 * k) for k in range(4)]
    for nm, size, fs in (("all", (5, 4), None), ("some", (4, 4), [1, 3]),
                         ("list", (3, 5), [0, 2, 3])):
        def follow(l):
            p = Plots(l)
            xyz = V.to_arr([list(q) for q in path[:len(fs or path)]])
            a = method(l, observer(l), "track", xyz, size=size,
                       **({} if fs is None else {"frames": fs}))
            return play(l, p, a, kinds)
        use = fs or [0, 1, 2, 3]
        q = seen(use[0], path[0])
        first = [tile(use[0], window(q, size)), dot(q)]
        want = [[ax(None, None, *first), ax(None, None, first[0], dot(q), first[1])]]
        for j, k in enumerate(use):
            line = [seen(k, x) for x in path[:j + 1]]
            q = line[-1]
            want.append([ax(None, None, *first), ax(
                None, None, tile(k, window(q, size)),
                ["line", {"x": [v[0] for v in line], "y": [v[1] for v in line]}, {}],
                dot(q))])
        check(ctx, r, f"Observer.track[{nm}]", lift(ctx, follow), (use, want), tol=1e-6)


def window_of(uv, size, shape):
    """Pixels nearest to the part of a box about a point that is in the image."""
    out = []
    for p, s, n in zip(uv, size, shape):
        out.append(tuple(math.floor(min(max(v, 0), n) + 0.5) for v in (
            p - s / 2, p + s / 2)))
    return out


def inverse(view, uv):
    """A point seen at image coordinates (no distortion)."""
    R = view.rotation()
    x = [(u - n / 2 - c) / f for u, n, c, f in zip(uv, view.sz.data, view.c.data,
                                                   view.f.data)] + [1.0]
    d = [sum(float(R[i][j]) * x[i] for i in range(3)) for j in range(3)]
    return [a + b for a, b in zip(view.xyz.data, d)]


def animated(ctx):
    r = "R5-frames"
    path = [(3.0 + 0.3 * k, 6.0 + k, 2.2 - 0.1 * k) for k in range(4)]
    means = MEANS.copy()
    for k, q in enumerate(path):
        means.data[1, k, 0:3] = q
    means.data[1, :, 3:6] = V.sym_array("v", (M, 3)).data
    times = timeline(M)
    P = V.sym_array("P", (N, M, 2, 6))
    W = V.sym_array("W", (N, M, 2), "pos")
    for i, (j, k, m) in enumerate(itertools.product(range(N), range(M), range(2))):
        for c in range(3):
            P.data[j, k, m, c] = path[k][c] + 0.1 * (m - 0.4 * c) + 0.01 * j
    for (nm, fs, missing), images, particles in itertools.product(
            (("all", None, ()), ("some", [0, 2, 3], ()), ("unseen", None, (1,)),
             ("lost", None, ()), ("late", [1, 3], ()), ("second", None, (2,))), (False, True), (False, True)):
        m = means.copy()
        lost = (3,) if nm == "lost" else ()
        for k in lost:
            m.data[1, k] = NAN
        which = [[None if k in missing else k] for k in range(M)]
        use = [k for k in (fs or range(M)) if k not in missing + lost]

        def body(l):
            p = Plots(l)
            kw, asked = {}, {}
            if particles or nm == "some":
                kw.update(particles=P.copy(), weights=W.copy())
            if images or nm == "some":
                kw["tracker"] = V.Obj("tracker", {"observers": [
                    *[None] * (nm == "second"), observer(l)]})
            if nm == "some":        # what is there, but not asked for
                asked = {"images": images, "particles": particles}
            if nm == "late":
                asked = {k: True for k, v in (("images", images), ("particles", particles))
                         if v}
            n = 2 if nm == "second" else 1
            im = V.Arr(V.obj_array((M, n)), (M, n), "o")
            for k in range(M):
                im.data[k, 0] = None if k == 0 else M - 1 - k
                im.data[k, n - 1] = which[k][0]
            o = l.construct(l.prog.cls("Tracks"), [], {
                "datetimes": V.to_arr(times), "time_unit": 2, "means": m.copy(),
                "images": im, **kw})
            a = method(l, o, "animate", 1, n - 1, map_size=(6, 5), img_size=(5, 4), **asked,
                       **({} if fs is None else {"frames": fs}))
            return play(l, p, a, ("line", "arrows", "points", "image"),
                        ("angles", "scale", "scale_units"))

        def line(pts):
            return ["line", {"x": [q[0] for q in pts], "y": [q[1] for q in pts]}, {}]

        def now(k, start=False):
            pts = path[:k + 1]
            uv = [seen(k, q) for q in pts]
            left, right = [line(pts)], []
            if images:
                right = [line(uv), line(uv[-1:]), tile(k, window(uv[-1], (5, 4)))]
            if start:
                return [ax(None, None, *left)] + ([ax(None, None, *right)] if images else [])
            after = use[use.index(k) + 1]
            dt = T.div(T.sub(times[after], times[k]), 2)
            if not particles and not images and nm != "some":
                dt = 1.0
            if particles:
                left.append(["arrows", {
                    "x": [P.data[1, k, i, 0] for i in range(2)],
                    "y": [P.data[1, k, i, 1] for i in range(2)],
                    "u": [T.mul(P.data[1, k, i, 3], dt) for i in range(2)],
                    "v": [T.mul(P.data[1, k, i, 4], dt) for i in range(2)],
                    "c": SG.farr(*W.data[1, k])}, ARROWS])
                if images:
                    uvs = [seen(k, P.data[1, k, i, 0:3]) for i in range(2)]
                    right.append(["points", {
                        "x": [q[0] for q in uvs], "y": [q[1] for q in uvs],
                        "c": SG.farr(*W.data[1, k]), "s": None}, {}])
            left.append(["arrows", {
                "x": [pts[-1][0]], "y": [pts[-1][1]], "u": [T.mul(m.data[1, k, 3], dt)],
                "v": [T.mul(m.data[1, k, 4], dt)], "c": None}, ARROWS])
            q = uv[-1]
            x, y = pts[-1][:2]
            return [ax([x - 3, x + 3], [y - 2.5, y + 2.5], *left)] + ([ax(
                [q[0] - 2.5, q[0] + 2.5], [q[1] + 2, q[1] - 2], *right)] if images else [])
        want = [now(use[0], True)] + [now(k) for k in use[:-1]]
        check(ctx, r, f"Tracks.animate[{nm},images={images},particles={particles}]",
                lift(ctx, body), (use[:-1], want), tol=1e-6)
