"""C14: observers, their images in time, and the tracks made from them."""
import datetime as python_datetime
import itertools
import math

import scipy.interpolate

from ..spec import grid as SG
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method
from .c13 import bilinear

add, mul, sub, div = T.add, T.mul, T.sub, T.div


def run(ctx):
    ctx.rule("R1-images", "an observer has two or more images in strictly increasing time")
    ctx.rule("R2-index", "an image is found by identity, a datetime by the nearest image "
             "within the tolerance")
    ctx.rule("R3-tiles", "tile boxes are whole pixels nearest to the box asked for, "
             "inside the image; tiles are read from, shifted and sampled in image "
             "coordinates")
    ctx.rule("R4-subsets", "subsets and splits hold the images of their interval, with "
             "the uncertainty and caching of the observer")
    ctx.rule("R5-datetimes", "datetime selection, ranges and distances are those of the "
             "datetimes themselves, whatever the local time zone")
    ctx.rule("R6-tracks", "tracks report positions, velocities, their uncertainty, "
             "success and endpoints of the right track and time")
    images(ctx)
    index(ctx)
    tiles(ctx)
    subsets(ctx)
    datetimes(ctx)
    tracks(ctx)
    ctx.need("R1-images", 3)
    ctx.need("R6-tracks", 3)


def timeline(n=8, first=0):
    """Times about a unit apart, in a known order."""
    t0 = T.sym("t0", (), "datetime")
    return [add(t0, add(first + k, T.sym(f"dt{k}", (), ("range", 0.0, 0.1))))
            for k in range(n)]


def picture(t, k=0, **kw):
    return V.Obj("image", {"datetime": t, "size": SG.farr(20, 16, kind="i"),
                           "array": k, **kw})


def observer(l, times, **kw):
    return l.construct(l.prog.cls("Observer"), [[picture(t, k) for k, t in enumerate(
        times)]], kw)


def images(ctx):
    r = "R1-images"
    t = timeline()
    for n in (2, 3, 4):
        for kw, sigma, cache in (({}, 0.3, True), (
                {"sigma": T.sym("sigma"), "cache": False}, T.sym("sigma"), False)):
            def body(l):
                o = observer(l, t[:n], **kw)
                ims = l.iterate(l.getattr(o, "images"))
                return (l.getattr(o, "datetimes"), l.getattr(o, "sigma"),
                        l.getattr(o, "cache"), [l.getattr(i, "array") for i in ims])
            C.check(ctx, r, f"Observer[{n} images{',options' if kw else ''}]",
                    lift(ctx, body), (SG.farr(*t[:n]), sigma, cache, list(range(n))))
    for nm, ts in (("none", []), ("one", t[:1]), ("same time", [t[0], t[0]]),
                   ("late same time", [t[0], t[1], t[1]]),
                   ("decreasing", [t[1], t[0]]), ("late decrease", [t[0], t[2], t[1]]),
                   ("missing", [t[0], None]), ("first missing", [None, t[0], t[1]])):
        C.check_raises(ctx, r, f"Observer[{nm}]",
                       lift(ctx, lambda l: l.getattr(observer(l, ts), "images")))


def index(ctx):
    r = "R2-index"
    t = timeline(4)
    for k in range(4):
        def body(l):
            o = observer(l, t)
            return method(l, o, "index", l.iterate(l.getattr(o, "images"))[k])
        C.check(ctx, r, f"Observer.index[image {k}]", lift(ctx, body), k)
        C.check(ctx, r, f"Observer.index[datetime {k}]", lift(
            ctx, lambda l: method(l, observer(l, t), "index", t[k])), k)
        for off in (-0.2, 0.15, 0.35):
            at = add(t[k], off)
            near = T.sym("near", (), ("range", 0.01, 0.1))
            far = T.sym("far", (), ("range", 0.4, 3))
            for nm, tol in (("", far), (",negative tolerance", T.app("neg", far)),
                            (",no limit", None)):
                C.check(ctx, r, f"Observer.index[{off} from {k}{nm}]", lift(
                    ctx, lambda l: method(l, observer(l, t), "index", at, maxdt=tol)), k)
            for nm, kw in ((",exact", {}), (",beyond tolerance", {"maxdt": near})):
                C.check_raises(ctx, r, f"Observer.index[{off} from {k}{nm}]", lift(
                    ctx, lambda l: method(l, observer(l, t), "index", at, **kw)))
        C.check_raises(ctx, r, f"Observer.index[other image {k}]", lift(
            ctx, lambda l: method(l, observer(l, t), "index", picture(t[k]))))


    # rasters of equal values
    for k in range(3):
        def rasters(l):
            rs = [l.construct(l.prog.cls("Raster"), [V.to_arr([[1.0, 2.0], [3.0, 4.0]])],
                              {"x": [0, 2], "y": [2, 0], "datetime": t[i]})
                  for i in range(3)]
            o = l.construct(l.prog.cls("Observer"), [rs], {})
            return method(l, o, "index", l.iterate(l.getattr(o, "images"))[k])
        C.check(ctx, r, f"Observer.index[raster {k} of equal values]", lift(ctx, rasters), k)


def tiles(ctx):
    r = "R3-tiles"
    t = timeline(3)
    u, v = T.sym("u", (), ("range", 6.0, 14.0)), T.sym("v", (), ("range", 5.0, 11.0))
    for w, h in ((5, 4), (4, 7), (1, 1)):
        lo = [T.app("floor", add(sub(p, s / 2), 0.5)) for p, s in ((u, w), (v, h))]
        want = SG.farr(*lo, *[add(a, s) for a, s in zip(lo, (w, h))])
        C.check(ctx, r, f"Observer.tile_box[{w} x {h}]", lift(
            ctx, lambda l: method(l, observer(l, t), "tile_box", SG.farr(u, v), size=(
                w, h), img=1)), want)
    for nm, uv in (("left", (2.4, v)), ("right", (17.6, v)), ("top", (u, 1.4)),
                   ("bottom", (u, 14.6))):
        C.check_raises(ctx, r, f"Observer.tile_box[beyond {nm}]", lift(
            ctx, lambda l: method(l, observer(l, t), "tile_box", SG.farr(*uv),
                                  size=(5, 3), img=1)))
    sizes = ((20, 16), (9, 30), (30, 9))
    for k, uv in enumerate(((17.0, 13.0), (6.2, 27.1), (27.3, 6.4))):
        def sized(l):
            ims = [picture(t[i], i) for i in range(3)]
            for i, s in zip(ims, sizes):
                i.attrs["size"] = SG.farr(*s, kind="i")
            return method(l, l.construct(l.prog.cls("Observer"), [ims], {}), "tile_box",
                          SG.farr(*uv), size=(3, 4), img=k)
        lo = [math.floor(p - s / 2 + 0.5) for p, s in zip(uv, (3, 4))]
        C.check(ctx, r, f"Observer.tile_box[size of image {k}]", lift(ctx, sized),
                SG.farr(*lo, lo[0] + 3, lo[1] + 4))
    for cache in (True, False):
        def extract(l):
            seen = []
            ims = []
            for k in range(3):
                def read(box=None, cache=True, k=k):
                    seen.append([k, box, cache])
                    return V.Opq(T.opaque(f"tile{k}"))
                ims.append(picture(t[k], k, read=V.Native(read)))
            o = l.construct(l.prog.cls("Observer"), [ims], {"cache": cache})
            method(l, o, "extract_tile", box=SG.farr(2, 3, 6, 7, kind="i"), img=2)
            return seen
        C.check(ctx, r, f"Observer.extract_tile[cache {cache}]", lift(ctx, extract),
                [[2, SG.farr(2, 3, 6, 7, kind="i"), cache]])
    for nm, index, which in (("all", None, [0, 1, 2]), ("some", [2, 0], [0, 2]),
                             ("slice", slice(1, None), [1, 2]), ("none", [], [])):
        def cached(l, name, **options):
            seen = []
            ims = [picture(t[k], V.Opq(T.opaque("pixels")), read=V.Native(
                lambda box=None, cache=True, k=k: seen.append([k, box, cache])))
                for k in range(3)]
            o = l.construct(l.prog.cls("Observer"), [ims], options)
            if index is None:
                method(l, o, name)
            else:
                i = V.to_arr(index) if index == [] else index
                if index == []:
                    i.kind = "i"
                method(l, o, name, index=i)
            seen.sort(key=lambda s: s[0])
            return seen, [k for k, i in enumerate(ims) if i.attrs["array"] is None]
        C.check(ctx, r, f"Observer.cache_images[{nm}]", lift(
            ctx, lambda l: cached(l, "cache_images")), ([[k, None, True] for k in which], []))
        C.check(ctx, r, f"Observer.cache_images[{nm},tiles not cached]", lift(
            ctx, lambda l: cached(l, "cache_images", cache=False)),
            ([[k, None, True] for k in which], []))
        C.check(ctx, r, f"Observer.clear_images[{nm}]", lift(
            ctx, lambda l: cached(l, "clear_images")), ([], which))
    # shifted and sampled tiles
    kw = {"kx": 1, "ky": 1}
    du, dv = T.sym("du", (), ("range", -0.5, 0.5)), T.sym("dv", (), ("range", -0.5, 0.5))
    for bands, kind in itertools.product((0, 2, 3), "fi"):
        z = V.sym_array("z", (3, 4, bands) if bands else (3, 4), *(
            ["int"] if kind == "i" else []))
        z.kind = kind
        want = V.Arr(V.obj_array(z.data.shape), z.dims, "f")
        for b in range(bands or 1):
            c = z.data[:, :, b] if bands else z.data
            for i, j in V.np.ndindex(3, 4):
                y = T.app("min2", T.app("max2", add(i, dv), 0), 2)
                x = T.app("min2", T.app("max2", add(j, du), 0), 3)
                want.data[(i, j, b) if bands else (i, j)] = bilinear(
                    [list(row) for row in c], 0, 0, x, y)
        C.check(ctx, r, f"Observer.shift_tile[{bands or 1} bands,{kind}]", lift(
            ctx, lambda l: (method(l, observer(l, t), "shift_tile", z.copy(),
                                   SG.farr(du, dv), **kw))), want)
    z = V.sym_array("z", (3, 4))
    for nm, d in (("right", (0.5, 0)), ("up", (0, -0.5))):
        want = V.to_arr([[bilinear([list(row) for row in z.data], 0, 0,
                                   min(max(j + d[0], 0), 3), min(max(i + d[1], 0), 2))
                          for j in range(4)] for i in range(3)])
        C.check(ctx, r, f"Observer.shift_tile[half a pixel {nm}]", lift(
            ctx, lambda l: method(l, observer(l, t), "shift_tile", z.copy(),
                                  SG.farr(*d), **kw)), want)
    # known values, with splines of other degrees
    known = V.np.array([[(7 * i * i + 3 * j * j * j + 5 * i * j) % 23 for j in range(6)]
                        for i in range(5)], dtype=float)
    for kx, ky, s in ((3, 3, 0), (2, 3, 0), (1, 2, 0), (3, 3, 40.0)):
        kws = {"kx": kx, "ky": ky, **({"s": s} if s else {})}
        for d in ((0.3, -0.2), (-0.45, 0.4)):
            f = scipy.interpolate.RectBivariateSpline(
                V.np.arange(5.0), V.np.arange(6.0), known, **kws)
            C.check(ctx, r, f"Observer.shift_tile[known values,{kx} {ky} {s},{d}]", lift(
                ctx, lambda l: method(l, observer(l, t), "shift_tile", V.to_arr(
                    known.tolist()), SG.farr(*d), **kws)), V.to_arr(
                        f(V.np.arange(5) + d[1], V.np.arange(6) + d[0]).tolist()),
                tol=1e-9)
        for nm, box in (("pixels", (4, 2, 10, 7)), ("smaller", (4, 2, 7, 6)),
                        ("parts", (1.5, -2.0, 10.5, 1.25))):
            du, dv = (box[2] - box[0]) / 6, (box[3] - box[1]) / 5
            f = scipy.interpolate.RectBivariateSpline(
                box[1] + dv * (V.np.arange(5) + 0.5), box[0] + du * (V.np.arange(6) + 0.5),
                known, **kws)
            us = [box[0] + p * (box[2] - box[0]) for p in (0.15, 0.42, 0.83)]
            vs = [box[1] + p * (box[3] - box[1]) for p in (0.2, 0.51, 0.87)]
            b = SG.farr(*box, kind="i") if nm != "parts" else SG.farr(*box)
            C.check(ctx, r, f"Observer.sample_tile[known values,{nm},{kx} {ky} {s}]", lift(
                ctx, lambda l: method(l, observer(l, t), "sample_tile", V.to_arr(
                    [list(p) for p in zip(us, vs)]), tile=V.to_arr(known.tolist()),
                    box=b, **kws)), V.to_arr(f(vs, us, grid=False).tolist()), tol=1e-9)
            C.check(ctx, r, f"Observer.sample_tile[known grid,{nm},{kx} {ky} {s}]", lift(
                ctx, lambda l: method(l, observer(l, t), "sample_tile", (
                    SG.farr(*us), SG.farr(*vs)), tile=V.to_arr(known.tolist()),
                    box=b, grid=True, **kws)), V.to_arr(f(vs, us).tolist()), tol=1e-9)
    for nm, d in (("u", (0.6, 0)), ("v", (0, -0.6)), ("both", (-0.7, 0.7))):
        C.check_raises(ctx, r, f"Observer.shift_tile[too far in {nm}]", lift(
            ctx, lambda l: method(l, observer(l, t), "shift_tile", z.copy(),
                                  SG.farr(*d), **kw)))
    left, top = T.sym("left", (), ("range", 0, 9)), T.sym("top", (), ("range", 0, 9))
    for nm, cw, ch in (("unit", 1, 1), ("larger", 2, 3), (
            "any", T.sym("cw", (), ("range", 0.5, 2)), T.sym("ch", (), ("range", 0.5, 2)))):
        box = SG.farr(left, top, add(left, mul(4, cw)), add(top, mul(3, ch)))
        fr = [(T.sym(f"fu{k}", (), ("range", 0.14, 0.86)),
               T.sym(f"fv{k}", (), ("range", 0.18, 0.82))) for k in range(3)]

        def at(fu, fv):
            return bilinear([list(row) for row in z.data], 0, 0, sub(mul(4, fu), 0.5),
                            sub(mul(3, fv), 0.5))
        us = [add(left, mul(f, mul(4, cw))) for f, _ in fr]
        vs = [add(top, mul(f, mul(3, ch))) for _, f in fr]
        C.check(ctx, r, f"Observer.sample_tile[points,{nm} cells]", lift(
            ctx, lambda l: method(l, observer(l, t), "sample_tile", V.to_arr(
                [[a, b] for a, b in zip(us, vs)]), tile=z.copy(), box=box, **kw)),
            SG.farr(*[at(*f) for f in fr]))
        # grid coordinates in increasing order
        gu = [add(left, mul(mul(4, cw), add(0.2 * (k + 1), mul(0.1, fr[k][0]))))
              for k in range(3)]
        gv = [add(top, mul(mul(3, ch), add(0.25 * (k + 1), mul(0.1, fr[k][1]))))
              for k in range(2)]
        want = V.to_arr([[at(add(0.2 * (j + 1), mul(0.1, fr[j][0])),
                             add(0.25 * (i + 1), mul(0.1, fr[i][1])))
                          for j in range(3)] for i in range(2)])
        C.check(ctx, r, f"Observer.sample_tile[grid,{nm} cells]", lift(
            ctx, lambda l: method(l, observer(l, t), "sample_tile", (
                SG.farr(*gu), SG.farr(*gv)), tile=z.copy(), box=box, grid=True, **kw)),
            want)
        for side, (a, b) in (("left", (-0.1, 0.5)), ("right", (1.1, 0.5)),
                             ("top", (0.5, -0.1)), ("bottom", (0.5, 1.1))):
            o = [add(left, mul(a, mul(4, cw))), add(top, mul(b, mul(3, ch)))]
            C.check_raises(ctx, r, f"Observer.sample_tile[beyond {side},{nm} cells]", lift(
                ctx, lambda l: method(l, observer(l, t), "sample_tile", V.to_arr(
                    [[us[0], vs[0]], o]), tile=z.copy(), box=box, **kw)))
            C.check_raises(ctx, r, f"Observer.sample_tile[grid beyond {side},{nm} cells]",
                           lift(ctx, lambda l: method(
                               l, observer(l, t), "sample_tile", (
                                   SG.farr(o[0]), SG.farr(o[1])), tile=z.copy(), box=box,
                               grid=True, **kw)))


def described(l, o, s, c):
    same = l.getattr(o, "sigma") is s and l.getattr(o, "cache") is c
    return ([l.getattr(i, "array") for i in l.iterate(l.getattr(o, "images"))],
            l.getattr(o, "datetimes"), same, o.cls.name)


def subsets(ctx):
    r = "R4-subsets"
    t = timeline(6)
    s = T.sym("sigma")
    opts = {"sigma": s, "cache": False}

    def want(ks):
        return (list(ks), SG.farr(*[t[k] for k in ks]), True, "Observer")
    half = T.sym("half", (), ("range", 0.3, 0.6))
    for nm, kw, ks in (
            ("all", {}, range(6)), ("start", {"start": t[2]}, range(2, 6)),
            ("end", {"end": t[3]}, range(4)),
            ("both", {"start": add(t[1], half), "end": sub(t[5], half)}, range(2, 5))):
        C.check(ctx, r, f"Observer.subset[{nm}]", lift(ctx, lambda l: described(
            l, method(l, observer(l, t, **opts), "subset", **kw), s, False)), want(ks))
    C.check_raises(ctx, r, "Observer.subset[single image]", lift(
        ctx, lambda l: l.getattr(method(l, observer(l, t), "subset", start=t[5]), "images")))

    def split(n, **kw):
        return lift(ctx, lambda l: [described(l, o, s, False) for o in l.iterate(
            method(l, observer(l, t, **opts), "split", n, **kw))])
    for nm, n, kw, parts in (
            ("one", 1, {}, [range(6)]),
            ("two", 2, {}, [range(3), range(2, 6)]),
            ("two,no overlap", 2, {"overlap": 0}, [range(3), range(3, 6)]),
            ("two,overlap of two", 2, {"overlap": 2}, [range(3), range(1, 6)]),
            ("two,overlap of many", 2, {"overlap": 9}, [range(3), range(6)]),
            ("breaks", [sub(t[3], half)], {}, [range(3), range(2, 6)]),
            ("several breaks", [add(t[2], half), add(t[3], half)], {},
             [range(3), range(2, 4), range(3, 6)]),
            ("breaks at images", [t[2], t[4]], {}, [range(3), range(2, 5), range(4, 6)]),
            ("breaks at images,no overlap", [t[2]], {"overlap": 0},
             [range(3), range(3, 6)]),
            ("all breaks", [t[0], t[3], t[5]], {}, [range(4), range(3, 6)])):
        C.check(ctx, r, f"Observer.split[{nm}]", split(
            V.to_arr(n) if isinstance(n, list) else n, **kw), [want(p) for p in parts])
    # images closer than a second, each in a single part
    near = [add(t[0], 0.3 * k) for k in range(6)]
    C.check(ctx, r, "Observer.split[close in time,no overlap]", lift(
        ctx, lambda l: [described(l, o, s, False)[0] for o in l.iterate(method(
            l, observer(l, near, **opts), "split", 2, overlap=0))]),
        [[0, 1, 2], [3, 4, 5]])
    # every image is in a part, however the interval divides
    for n, parts in ((3, [(0, 1), (1, 2, 3), (3, 4, 5)]),
                     (4, [(0, 1), (1, 2), (2, 3), (3, 4, 5)])):
        C.check(ctx, r, f"Observer.split[{n}]", split(n), [want(p) for p in parts])


def datetimes(ctx):
    r = "R5-datetimes"
    t = timeline(6)

    def call(name, *args, **kw):
        return lift(ctx, lambda l: l.call_func(ctx.prog.func("helpers", name),
                                               [V.to_arr(a) if isinstance(a, list) else a
                                                for a in args], kw))
    x, y = t[:3], t[2:] + [t[0]]
    C.check(ctx, r, "helpers.pairwise_distance_datetimes", call(
        "pairwise_distance_datetimes", x, y),
        V.to_arr([[T.app("abs", sub(a, b)) for b in y] for a in x]))
    x = [t[2], t[0], t[3]]
    C.check(ctx, r, "helpers.pairwise_distance_datetimes[unsorted]", call(
        "pairwise_distance_datetimes", x, y),
        V.to_arr([[T.app("abs", sub(a, b)) for b in y] for a in x]))
    C.check(ctx, r, "helpers.pairwise_distance_datetimes[one]", call(
        "pairwise_distance_datetimes", x[:1], y[:1]),
        V.to_arr([[T.app("abs", sub(x[0], y[0]))]]))
    step = T.sym("step", (), ("range", 0.9, 0.99))
    for n in range(4):
        stop = add(t[0], mul(step, add(n, T.sym("part", (), ("range", 0.1, 0.9)))))
        C.check(ctx, r, f"helpers.datetime_range[{n}]", call(
            "datetime_range", t[0], stop, step),
            SG.farr(*[add(t[0], mul(k, step)) for k in range(n + 1)]))
    half = T.sym("half", (), ("range", 0.3, 0.6))

    def mask(ks, n=6):
        a = V.to_arr([k in ks for k in range(n)])
        a.kind = "b"
        return a
    for nm, kw, ks in (
            ("all", {}, range(6)), ("start", {"start": t[2]}, range(2, 6)),
            ("start between", {"start": add(t[2], half)}, range(3, 6)),
            ("end", {"end": t[3]}, range(4)), ("end between", {"end": sub(t[3], half)},
                                               range(3)),
            ("both", {"start": t[1], "end": t[4]}, range(1, 5)),
            ("one", {"start": t[1], "end": t[1]}, [1]),
            ("before", {"end": sub(t[0], half), "start": sub(t[0], 2)}, []),
            ("every other", {"snap": 2, "origin": t[0], "maxdt": 0.3}, (0, 2, 4)),
            ("every other,default tolerance", {"snap": 2, "origin": add(t[0], 0.2)},
             (0, 2, 4)),
            ("every other,start", {"snap": 2, "origin": t[0], "maxdt": 0.3, "start": t[1]},
             (2, 4)),
            ("every other,end", {"snap": 2, "origin": t[0], "maxdt": 0.3, "end": t[3]},
             (0, 2)),
            ("every third,later origin", {"snap": 3, "origin": add(t[1], 6), "maxdt": 0.4},
             (1, 4)),
            ("every half", {"snap": 0.5, "origin": sub(t[0], 3.8), "maxdt": 0.45},
             range(6)),
            ("before the first", {"snap": 2, "origin": sub(t[0], 0.3), "maxdt": 0.45},
             (0, 2, 4)),
            ("after the last", {"snap": 2, "origin": add(t[5], 0.3), "maxdt": 0.45},
             (1, 3, 5)),
            ("far from both", {"snap": 2, "origin": add(t[0], 0.15), "start": add(t[0], half),
                               "maxdt": 0.3}, (2, 4)),
            ("nearest is before the start", {
                "snap": 2, "origin": add(t[2], 0.3), "start": add(t[2], 0.25),
                "maxdt": 0.45}, (4,)),
            ("nearest is after the end", {
                "snap": 2, "origin": sub(t[4], 0.3), "end": sub(t[4], 0.25),
                "maxdt": 0.45}, (0, 2)),
            ("exactly", {"snap": 2, "origin": t[0], "start": t[0], "maxdt": 0}, (0,)),
            ("no multiple in between", {"snap": 10, "origin": sub(t[0], 2), "start": t[0],
                                        "end": t[5]}, ()),
            ("one multiple in between", {"snap": 10, "origin": sub(t[0], 8),
                                         "start": t[0], "end": t[5]}, (2,)),
            ("tight", {"snap": 2, "origin": add(t[0], 0.5), "maxdt": 0.1}, ())):
        C.check(ctx, r, f"helpers.select_datetimes[{nm}]", call(
            "select_datetimes", list(t), **kw), mask(ks))
    # multiples of the step count from 1970 unless told otherwise
    epoch = T.sym("epoch", (), "datetime")
    late = [add(epoch, add(k, T.sym(f"late{i}", (), ("range", 0.0, 0.2))))
            for i, k in enumerate((100, 101, 105, 110, 112, 114))]

    def days(l, args, kwargs):
        d = python_datetime.datetime(*(l.number(a) for a in args))
        return add(epoch, (d - python_datetime.datetime(1970, 1, 1)
                           ).total_seconds() / 86400)

    def default_origin(l):
        l.ext["datetime.datetime"] = days
        return l.call_func(ctx.prog.func("helpers", "select_datetimes"),
                           [V.to_arr(late)], dict(snap=7, maxdt=0.4))
    C.check(ctx, r, "helpers.select_datetimes[default origin]", lift(ctx, default_origin),
            mask((2, 4)))
    C.check_raises(ctx, r, "helpers.select_datetimes[start after end]", call(
        "select_datetimes", list(t), start=t[3], end=t[2]))
    C.check(ctx, r, "helpers.select_datetimes[single]", call(
        "select_datetimes", t[:1], snap=2, origin=t[0], maxdt=0.1), mask([0], 1))
    C.check(ctx, r, "helpers.select_datetimes[single beyond]", call(
        "select_datetimes", t[:1], snap=2, origin=add(t[0], 0.5), maxdt=0.1), mask([], 1))


def tracks(ctx):
    r = "R6-tracks"
    n, m = 3, 4
    t = timeline(m)
    M = V.sym_array("M", (n, m, 6))
    S = V.sym_array("S", (n, m, 6), ("range", 0.1, 2))
    K = V.sym_array("K", (n, m, 6, 6), ("range", 0.1, 2))

    def rows(a):
        return tuple(V.Arr(a.data[i].copy(), a.dims[1:], "f") for i in range(n))

    def make(l, arrays=False, means=M, **kw):
        def f(a):
            return a.copy() if arrays else rows(a)
        return l.construct(l.prog.cls("Tracks"), [], {
            "datetimes": V.to_arr(t), "time_unit": 1, "means": f(means),
            **{k: f(v) if isinstance(v, V.Arr) else v for k, v in kw.items()}})

    def part(a, lo):
        return V.Arr(a.data[:, :, lo:lo + 3].copy(), (n, m, 3), "f")

    def var(lo):
        return V.to_arr([[[T.sqrt(K.data[i, j, k, k]) for k in range(lo, lo + 3)]
                          for j in range(m)] for i in range(n)])
    for arrays in (False, True):
        nm = ",arrays" if arrays else ""
        C.check(ctx, r, f"Tracks.xyz[{nm}]", lift(
            ctx, lambda l: l.getattr(make(l, arrays), "xyz")), part(M, 0))
        C.check(ctx, r, f"Tracks.vxyz[{nm}]", lift(
            ctx, lambda l: l.getattr(make(l, arrays), "vxyz")), part(M, 3))
        for what, lo in (("xyz_sigma", 0), ("vxyz_sigma", 3)):
            C.check(ctx, r, f"Tracks.{what}[sigmas{nm}]", lift(
                ctx, lambda l: l.getattr(make(l, arrays, sigmas=S), what)), part(S, lo))
            C.check(ctx, r, f"Tracks.{what}[covariances{nm}]", lift(
                ctx, lambda l: l.getattr(make(l, arrays, covariances=K), what)), var(lo))
            C.check(ctx, r, f"Tracks.{what}[absent{nm}]", lift(
                ctx, lambda l: l.getattr(make(l, arrays), what)), None)
    P = V.sym_array("P", (n, 2, 5, 6))
    W = V.sym_array("W", (n, 2, 5))
    e = tuple(V.Obj(f"error{k}", {}) for k in range(n))
    w = tuple(V.Obj(f"warnings{k}", {}) for k in range(n))
    by = V.Obj("tracker", {})
    param = {"seed": 1}

    def kept(l):
        o = make(l, particles=P, weights=W, sigmas=S, errors=e, warnings=w, tracker=by,
                 params=param)
        return ([l.getattr(o, a) for a in ("datetimes", "time_unit", "means", "sigmas",
                                           "particles", "weights", "covariances",
                                           "images")],
                l.getattr(o, "tracker") is by, l.getattr(o, "params"),
                [a is b for k, v in (("errors", e), ("warnings", w))
                 for a, b in zip(l.iterate(l.getattr(o, k)), v)])
    C.check(ctx, r, "Tracks", lift(ctx, kept), ([V.to_arr(t), 1, M, S, P, W, None, None],
                                               True, param, [True] * (2 * n)))
    for pattern in itertools.product((0, 1), repeat=2):
        e = tuple(None if k else V.Obj("error", {}) for k in pattern)
        ok = V.to_arr([bool(k) for k in pattern])
        ok.kind = "b"
        C.check(ctx, r, f"Tracks.success[{pattern}]", lift(
            ctx, lambda l: l.getattr(make(l, errors=e), "success")), ok)
    C.check(ctx, r, "Tracks.success[absent]", lift(
        ctx, lambda l: l.getattr(make(l), "success")), None)
    spans = list(itertools.combinations_with_replacement(range(m), 2))
    for k, (a, b) in enumerate(spans):
        # first track as given, second always missing, third the opposite span
        X = M.copy()
        lim = [(a, b), None, spans[-1 - k]]
        for i, s in enumerate(lim):
            for j in range(m):
                if s is None or not s[0] <= j <= s[1]:
                    X.data[i, j] = float("nan")
        if a < b - 1:
            X.data[0, a + 1] = float("nan")     # a gap within the track
        c = lim[2]
        ok = V.to_arr([True, False, True])
        ok.kind = "b"
        C.check(ctx, r, f"Tracks.endpoints[{a} to {b}]", lift(
            ctx, lambda l: tuple(method(l, make(l, means=X), "endpoints"))),
            (ok, SG.farr(a, c[0], kind="i"), SG.farr(b, c[1], kind="i")))
        ok = V.to_arr([True])
        ok.kind = "b"
        C.check(ctx, r, f"Tracks.endpoints[third,{a} to {b}]", lift(
            ctx, lambda l: tuple(method(l, make(l, means=X), "endpoints",
                                        tracks=slice(2, None)))),
            (ok, SG.farr(c[0], kind="i"), SG.farr(c[1], kind="i")))
