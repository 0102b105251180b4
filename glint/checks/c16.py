"""C16: control points, lines and matches: what is observed, predicted and kept."""
import itertools

from ..spec import camera as S
from ..spec import grid as SG
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method

add, mul, sub, div = T.add, T.mul, T.sub, T.div
INDEX = (("all", slice(None), range(4)), ("from one", slice(1, None), (1, 2, 3)),
         ("every other", slice(None, None, 2), (0, 2)), ("list", [3, 1], (3, 1)))


def run(ctx):
    ctx.rule("R1-points", "control points observe their image coordinates and predict "
             "the projection of their world coordinates, for any selection")
    ctx.rule("R2-matches", "matches predict, in either camera, the projection of the ray "
             "of the other camera's image point, as do their pre-computed forms")
    ctx.rule("R3-changes", "a moved camera or changed internal parameters that the "
             "control does not allow are rejected")
    ctx.rule("R4-resize", "image coordinates of control follow the image size of their "
             "cameras, once")
    ctx.rule("R5-filter", "filters keep exactly the matches that meet every criterion, "
             "in all coordinates and weights alike")
    ctx.rule("R6-types", "conversion between types of matches keeps cameras, coordinates "
             "and weights")
    points(ctx)
    matches(ctx)
    filters(ctx)
    types(ctx)
    ctx.need("R1-points", 3)
    ctx.need("R2-matches", 3)


def ix(i):
    if isinstance(i, list):
        a = V.to_arr(i)
        a.kind = "i"
        return a
    return i


def take(a, ks):
    return V.Arr(a.data[list(ks)].copy(), (len(list(ks)),) + a.dims[1:], a.kind)


def stacked(rows):
    return V.to_arr([list(r) for r in rows])


def points(ctx):
    r = "R1-points"
    X = V.sym_array("X", (4, 3))
    U = V.sym_array("U", (4, 2))
    for directions, (nm, index, ks) in itertools.product((False, True), INDEX):
        cam = S.Cam("full")

        def make(l, c=None):
            return l.construct(l.prog.cls("Points"), [], dict(
                cam=c or cam.build(l), uv=U.copy(), xyz=X.copy(), directions=directions))
        con = f"[{'directions,' if directions else ''}{nm}]"
        C.check(ctx, r, f"Points.observed{con}", lift(ctx, lambda l: method(
            l, make(l), "observed", index=ix(index))), take(U, ks))
        C.check(ctx, r, f"Points.predicted{con}", lift(ctx, lambda l: method(
            l, make(l), "predicted", index=ix(index))), stacked(
                S.project(cam, list(X.data[k]), directions)[0] for k in ks))
        C.check(ctx, r, f"Points.size{con}", lift(ctx, lambda l: l.getattr(
            make(l), "size")), 4)

        if directions:
            for i in range(3):
                def along(l):
                    c = cam.build(l)
                    o = make(l, c)
                    l.setattr(c, "xyz", V.to_arr([add(x, 1 if j == i else 0) for j, x in
                                                  enumerate(cam.xyz.data)]))
                    return method(l, o, "predicted", index=ix(index))
                C.check_raises(ctx, "R3-changes", f"Points.predicted[moved along {i}]{con}",
                               lift(ctx, along))

        def moved(l, what, v):
            c = cam.build(l)
            o = make(l, c)
            l.setattr(c, what, v.copy())
            return method(l, o, "predicted", index=ix(index))
        for what, v in (("xyz", S.vec("other", 3)), ("viewdir", S.vec("vother", 3)),
                        ("f", S.vec("fother", 2, "pos")), ("imgsz", S.vec(
                            "iother", 2, "posint"))):
            out = lift(ctx, lambda l: moved(l, what, v))
            if what == "xyz" and directions:
                C.check_raises(ctx, "R3-changes", f"Points.predicted{con}", out)
                continue
            new = S.Cam("full")
            setattr(new, {"xyz": "xyz", "viewdir": "vd", "f": "f", "imgsz": "sz"}[what], v)
            C.check(ctx, r, f"Points.predicted[{what} changed]{con}", out, stacked(
                S.project(new, list(X.data[k]), directions)[0] for k in ks))
    for a, b in ((3, 4), (4, 3), (0, 1)):
        C.check_raises(ctx, r, f"Points[{a} image and {b} world points]", lift(
            ctx, lambda l: l.construct(l.prog.cls("Points"), [], dict(
                cam=S.Cam("none").build(l), uv=V.sym_array("U", (a, 2)),
                xyz=V.sym_array("X", (b, 3))))))
    # image size
    r = "R4-resize"
    for how in ("cam", "control", "scale", "twice"):
        cam = S.Cam("none", sizes=(40, 30), moved=False)

        def resized(l):
            c = cam.build(l)
            o = l.construct(l.prog.cls("Points"), [], dict(
                cam=c, uv=U.copy(), xyz=X.copy()))
            new = SG.farr(80, 60, kind="i")
            if how == "cam":
                method(l, c, "resize", new)
                method(l, o, "resize")
            elif how == "scale":
                method(l, o, "resize", 2)
            else:
                method(l, o, "resize", new)
            if how == "twice":
                method(l, o, "resize")
                method(l, o, "resize", SG.farr(20, 15, kind="i"))
                method(l, o, "resize", new)
            return (method(l, o, "observed"), l.getattr(c, "imgsz"))
        want = V.to_arr([[mul(2, x) for x in row] for row in U.data])
        C.check(ctx, r, f"Points.resize[{how}]", lift(ctx, resized),
                (want, SG.farr(80, 60, kind="i")))
    aspects(ctx, r, "Points", lambda l, c: l.construct(l.prog.cls("Points"), [], dict(
        cam=c, uv=U.copy(), xyz=X.copy())), "observed", U)
    lines(ctx)
    # plain sequences
    for directions in (False, True):
        def plain(l):
            c = cam.build(l)
            o = l.construct(l.prog.cls("Points"), [], dict(
                cam=c, uv=U.data.tolist(), xyz=X.data.tolist(), directions=directions))
            return (method(l, o, "observed", index=ix([3, 1])),
                    method(l, o, "predicted", index=ix([2, 0])))
        cam = S.Cam("full")
        C.check(ctx, "R1-points", f"Points[lists,directions={directions}]", lift(
            ctx, plain), (take(U, (3, 1)), stacked(S.project(cam, list(
                X.data[k]), directions)[0] for k in (2, 0))))

    def default(l):
        o = l.construct(l.prog.cls("Points"), [cam.build(l), U.copy(),
                                                         X.copy()], {})
        return method(l, o, "predicted")
    C.check(ctx, "R1-points", "Points.predicted[default options]", lift(ctx, default),
            stacked(S.project(cam, list(X.data[k]), False)[0] for k in range(4)))


def inexact(l):
    """No scale factor achieves the size exactly."""
    l.ext["scipy.optimize.differential_evolution"] = lambda l, *a, **k: {
        "fun": 30.0, "x": V.to_arr([2.0])}


def aspects(ctx, r, name, make, what, U):
    """Sizes of another aspect ratio: rejected unless forced."""
    for force, (w, h) in itertools.product(
            (None, False, True), ((80, 90), (80, 30), (40, 90))):
        def stretched(l):
            inexact(l)
            c = S.Cam("none", sizes=(40, 30), moved=False).build(l)
            o = make(l, c)
            kw = {} if force is None else {"force": force}
            method(l, o, "resize", SG.farr(w, h, kind="i"), **kw)
            return (method(l, o, what), l.getattr(c, "imgsz"))
        con = f"{name}.resize[40 x 30 to {w} x {h},force={force}]"
        if not force:
            C.check_raises(ctx, r, con, lift(ctx, stretched))
            continue
        C.check(ctx, r, con, lift(ctx, stretched), (V.to_arr(
            [[mul(div(w, 40), row[0]), mul(div(h, 30), row[1])] for row in U.data]),
            SG.farr(w, h, kind="i")))


def lines(ctx):
    r = "R1-points"
    us = [V.sym_array("La", (2, 2)), V.sym_array("Lb", (3, 2))]
    xs = [V.sym_array("Xa", (2, 3)), V.sym_array("Xb", (2, 3))]
    alls = V.Arr(V.np.concatenate([u.data for u in us]), (5, 2), "f")

    def make(l, cam, **kw):
        return l.construct(l.prog.cls("Lines"), [], dict(
            cam=cam, uvs=[u.copy() for u in us], xyzs=[x.copy() for x in xs], **kw))
    for nm, index, ks in (("all", slice(None), range(5)), ("some", [4, 0], (4, 0)),
                          ("from three", slice(3, None), (3, 4))):
        C.check(ctx, r, f"Lines.observed[{nm}]", lift(ctx, lambda l: method(
            l, make(l, S.Cam("none").build(l)), "observed", index=ix(index))),
            take(alls, ks))
    C.check(ctx, r, "Lines.size", lift(ctx, lambda l: l.getattr(
        make(l, S.Cam("none").build(l)), "size")), 5)

    def moved(l):
        c = S.Cam("none").build(l)
        o = make(l, c, directions=True)
        l.setattr(c, "xyz", S.vec("other", 3))
        return method(l, o, "predicted")
    C.check_raises(ctx, "R3-changes", "Lines.predicted", lift(ctx, moved))
    for how in ("cam", "control", "twice"):
        def resized(l):
            c = S.Cam("none", sizes=(40, 30), moved=False).build(l)
            o = make(l, c)
            new = SG.farr(80, 60, kind="i")
            if how == "cam":
                method(l, c, "resize", new)
                method(l, o, "resize")
            else:
                method(l, o, "resize", new)
            if how == "twice":
                method(l, o, "resize")
            return (method(l, o, "observed"), l.iterate(l.getattr(o, "uvs")))

        def twice(a):
            return V.Arr(V.np.vectorize(lambda x: mul(2, x), otypes=[object])(a.data),
                         a.dims, "f")
        C.check(ctx, "R4-resize", f"Lines.resize[{how}]", lift(ctx, resized),
                (twice(alls), [twice(u) for u in us]))


def pair(distortion="none", sizes=None):
    """Two cameras of the same position that view nearly the same way."""
    out = []
    for p, sz in (("a", (40, 30)), ("b", (60, 44))):
        c = S.Cam(distortion, prefix=p, sizes=sz if sizes is None else sizes,
                  moved=False)
        c.f = V.to_arr([T.sym(f"{p}f{i}", (), ("range", 40, 60)) for i in range(2)])
        c.c = V.to_arr([T.sym(f"{p}c{i}", (), ("range", -1, 1)) for i in range(2)])
        c.vd = V.to_arr([T.sym(f"{p}vd{i}", (), ("range", -4, 4)) for i in range(3)])
        for v in (c.f, c.c, c.vd):
            v.kind = "f"
        c.xyz = S.vec("X", 3)
        out.append(c)
    return out


def image_points(name, n=4):
    return V.sym_array(name, (n, 2), ("range", 12, 24))


FORMS = ("Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ")


def normal(cam, uv):
    return [div(sub(uv[i], add(cam.c.data[i], div(cam.sz.data[i], 2))), cam.f.data[i])
            for i in range(2)]


def ray(cam, uv):
    return S.unproject(cam, uv)


def predicted(form, cams, uvs, ci, k):
    co = 1 - ci
    if form == "RotationMatchesXYZ":
        d = ray(cams[ci], list(uvs[ci].data[k]))
        n = T.sqrt(S.dot(d, d))
        return [div(x, n) for x in d]
    uv, _ = S.project(cams[ci], ray(cams[co], list(uvs[co].data[k])), True)
    if form == "RotationMatchesXY":
        return normal(cams[ci], uv)
    return uv


def observed(form, cams, uvs, ci, k):
    uv = list(uvs[ci].data[k])
    return normal(cams[ci], uv) if form == "RotationMatchesXY" else uv


def xys_of(cams, uvs):
    return [stacked(normal(c, list(u.data[k])) for k in range(u.dims[0]))
            for c, u in zip(cams, uvs)]


def matches(ctx):
    uvs = [image_points("ua"), image_points("ub")]
    cams = pair()
    w = V.sym_array("w", (4,), "pos")
    for form in FORMS:
        def make(l, built=None, given="uvs", **kw):
            d = {}
            if "uvs" in given:
                d["uvs"] = [u.copy() for u in uvs]
            if "xys" in given:
                d["xys"] = xys_of(cams, uvs)
            return l.construct(l.prog.cls(form), [], dict(
                cams=tuple(built or [c.build(l) for c in cams]), **d, **kw))
        given = [("uvs", {})] + ([("xys", {"given": "xys"}), ("uvs and xys", {
            "given": "uvs xys"})] if form != "Matches" else [])
        for (gn, g), ci, (nm, index, ks) in itertools.product(given, (0, 1), INDEX):
            con = f"[{gn},camera {ci},{nm}]"
            for by in ("index", "camera"):
                if by == "camera" and nm != "list":
                    continue

                def call(l, what):
                    built = [c.build(l) for c in cams]
                    return method(l, make(l, built, **g), what, cam=built[ci]
                                  if by == "camera" else ci, index=ix(index))
                tag = con + (",by camera" if by == "camera" else "")
                C.check(ctx, "R2-matches", f"{form}.predicted{tag}", lift(
                    ctx, lambda l: call(l, "predicted")), stacked(
                        predicted(form, cams, uvs, ci, k) for k in ks))
                if form != "RotationMatchesXYZ":
                    C.check(ctx, "R2-matches", f"{form}.observed{tag}", lift(
                        ctx, lambda l: call(l, "observed")), stacked(
                            observed(form, cams, uvs, ci, k) for k in ks))
        C.check(ctx, "R2-matches", f"{form}.size", lift(
            ctx, lambda l: l.getattr(make(l, weights=w.copy()), "size")), 4)
        for nm, bad in (("same camera", lambda l: [cams[0].build(l)] * 2),
                        ("three cameras", lambda l: [c.build(l) for c in
                                                     cams + pair()[:1]])):
            C.check_raises(ctx, "R2-matches", f"{form}[{nm}]", lift(
                ctx, lambda l: make(l, bad(l))))

        def uneven(l):
            return l.construct(l.prog.cls(form), [], dict(
                cams=tuple(c.build(l) for c in cams),
                uvs=[image_points("ua", 3), image_points("ub")]))
        C.check_raises(ctx, "R2-matches", f"{form}[different lengths]", lift(ctx, uneven))
        for what, v in (("xyz", S.vec("other", 3)), ("f", S.vec("fo", 2, "pos")),
                        ("c", S.vec("co", 2)), ("k", S.vec("ko", 6)),
                        ("p", S.vec("po", 2)), ("imgsz", S.vec("io", 2, "posint")),
                        ("viewdir", V.sym_array("vo", (3,), ("range", -4, 4)))):
            for which in (0, 1):
                def changed(l):
                    built = [c.build(l) for c in cams]
                    o = make(l, built)
                    l.setattr(built[which], what, v.copy())
                    return method(l, o, "predicted", cam=0)
                out = lift(ctx, lambda l: changed(l))
                con = f"{form}.predicted[{what} of camera {which} changed]"
                if what == "xyz" or what != "viewdir" and form != "Matches":
                    C.check_raises(ctx, "R3-changes", con, out)
                elif what in ("viewdir", "f", "c"):
                    new = pair()
                    setattr(new[which], {"viewdir": "vd"}.get(what, what), v)
                    C.check(ctx, "R3-changes", con, out, stacked(
                        predicted(form, new, uvs, 0, k) for k in range(4)))

        for k in (2, 5):
            for what in ("observed", "predicted"):
                C.check_raises(ctx, "R2-matches", f"{form}.{what}[camera {k} of two]",
                               lift(ctx, lambda l: method(l, make(l), what, cam=k)))
        if form != "RotationMatchesXYZ":
            C.check(ctx, "R2-matches", f"{form}.observed[default camera]", lift(
                ctx, lambda l: method(l, make(l), "observed")), stacked(
                    observed(form, cams, uvs, 0, k) for k in range(4)))
        C.check(ctx, "R2-matches", f"{form}.predicted[default camera]", lift(
            ctx, lambda l: method(l, make(l), "predicted")), stacked(
                predicted(form, cams, uvs, 0, k) for k in range(4)))

        for g in ("uvs", "xys"):
            if g == "xys" and form == "Matches":
                continue

            def plain(l):
                us = uvs if g == "uvs" else xys_of(cams, uvs)
                o = l.construct(l.prog.cls(form), [], dict(
                    cams=tuple(c.build(l) for c in cams),
                    **{g: tuple(u.data.tolist() for u in us)}))
                return method(l, o, "predicted", cam=1, index=ix([2, 0]))
            C.check(ctx, "R2-matches", f"{form}[{g} as lists]", lift(ctx, plain),
                    stacked(predicted(form, cams, uvs, 1, k) for k in (2, 0)))
        if form != "Matches":
            C.check_raises(ctx, "R2-matches", f"{form}[no coordinates]", lift(
                ctx, lambda l: make(l, given="")))

        def apart(l):
            other = pair()
            other[1].xyz = S.vec("other", 3)
            o = make(l, [c.build(l) for c in other])
            return method(l, o, "predicted")
        C.check_raises(ctx, "R3-changes", f"{form}[different positions]", lift(ctx, apart))

    def apart(l):
        other = pair()
        other[1].xyz = V.to_arr([other[0].xyz.data[0], other[0].xyz.data[1], T.sym("oz")])
        return l.construct(l.prog.cls("Matches"), [], dict(
            cams=tuple(c.build(l) for c in other), uvs=[u.copy() for u in uvs]))
    C.check_raises(ctx, "R3-changes", "Matches[different heights]", lift(ctx, apart))
    for force, (w, h) in itertools.product(
            (None, False, True), ((80, 90), (80, 30), (40, 90))):
        def stretched(l):
            inexact(l)
            c = pair(sizes=(40, 30))
            built = [x.build(l) for x in c]
            o = l.construct(l.prog.cls("Matches"), [], dict(
                cams=built, uvs=[u.copy() for u in uvs]))
            kw = {} if force is None else {"force": force}
            method(l, o, "resize", SG.farr(w, h, kind="i"), **kw)
            return [method(l, o, "observed", cam=k) for k in (0, 1)]
        con = f"Matches.resize[40 x 30 to {w} x {h},force={force}]"
        if not force:
            C.check_raises(ctx, "R4-resize", con, lift(ctx, stretched))
        else:
            C.check(ctx, "R4-resize", con, lift(ctx, stretched), [V.to_arr(
                [[mul(div(w, 40), row[0]), mul(div(h, 30), row[1])] for row in u.data])
                for u in uvs])
    # image size
    for how in ("cams", "control", "scale", "one camera", "twice"):
        def resized(l):
            built = [c.build(l) for c in cams]
            o = l.construct(l.prog.cls("Matches"), [], dict(
                cams=built, uvs=[u.copy() for u in uvs]))
            if how == "cams":
                for c in built:
                    method(l, c, "resize", 2)
                method(l, o, "resize")
            elif how == "one camera":
                method(l, built[1], "resize", 2)
                method(l, o, "resize")
            else:
                method(l, o, "resize", 2)
            if how == "twice":
                method(l, o, "resize")
                method(l, o, "resize", 0.5)
                method(l, o, "resize", 2)
            return [method(l, o, "observed", cam=k) for k in (0, 1)]
        want = [V.Arr(V.np.vectorize(lambda x: mul(2, x), otypes=[object])(u.data), u.dims,
                      "f") if how != "one camera" or k else u for k, u in enumerate(uvs)]
        C.check(ctx, "R4-resize", f"Matches.resize[{how}]", lift(ctx, resized), want)


def filters(ctx):
    r = "R5-filter"
    cams = pair()
    n = 5
    A = image_points("ua", n)
    size = (0.5, 3.0, 1.0, 2.0, 4.0)
    # errors in the second camera, of known order of magnitude
    err = [[mul(s, T.app("cos", T.sym(f"ang{k}"))), mul(s, T.app("sin", T.sym(f"ang{k}")))]
           for k, s in enumerate(size)]
    B = stacked([add(p, e) for p, e in zip(S.project(
        cams[1], ray(cams[0], list(A.data[k])), True)[0], err[k])] for k in range(n))
    order = (2, 0, 4, 1, 3)         # rank of each weight
    W = V.to_arr([T.sym(f"w{k}", (), ("range", o + 0.1, o + 0.9))
                  for k, o in enumerate(order)])
    W.kind = "f"

    def kept(ks, ws=True):
        return ([take(A, ks), take(B, ks)], take(W, ks) if ws else None, len(ks))

    def state(l, o):
        return (l.iterate(l.getattr(o, "uvs")), l.getattr(o, "weights"),
                l.getattr(o, "size"))

    def best(m):
        return [k for k in range(n) if order[k] >= n - m]
    for form in FORMS[:2]:
        def go(ws, *steps):
            def body(l):
                o = l.construct(l.prog.cls(form), [], dict(
                    cams=tuple(c.build(l) for c in cams), uvs=[A.copy(), B.copy()],
                    weights=W.copy() if ws else None))
                for s in steps:
                    method(l, o, "filter", **s)
                ks = state(l, o)
                return ks + tuple(method(l, o, "predicted", cam=k) for k in (0, 1)) + \
                    tuple(method(l, o, "observed", cam=k) for k in (0, 1))
            return lift(ctx, body)

        def want(ks, ws=True):
            ks = list(ks)
            if not ks:
                return kept(ks, ws)
            return kept(ks, ws) + tuple(stacked(
                predicted(form, cams, [A, B], ci, k) for k in ks) for ci in (0, 1)) + \
                tuple(take(u, ks) for u in (A, B))
        every = range(n)
        for m in (1, 2, 4, 5, 9):
            C.check(ctx, r, f"{form}.filter[n_best {m}]", go(True, {"n_best": m}),
                    want(best(m)))
        for m in (1, 2.0, 4):
            C.check(ctx, r, f"{form}.filter[min_weight {m}]", go(
                True, {"min_weight": m}), want([k for k in every if order[k] >= m]))
        for ws in (True, False):
            t = ",weights" if ws else ""
            C.check(ctx, r, f"{form}.filter[nothing{t}]", go(ws, {}), want(every, ws))
            for e in (0.7, 1.5, 2.5, 9):
                C.check(ctx, r, f"{form}.filter[max_error {e}{t}]", go(
                    ws, {"cam": 1, "max_error": e}), want(
                        [k for k in every if size[k] <= e], ws))
                C.check(ctx, r, f"{form}.filter[max_error {e} scaled{t}]", go(
                    ws, {"cam": 1, "max_error": e / 60, "scaled": True}), want(
                        [k for k in every if size[k] <= e], ws))
        C.check(ctx, r, f"{form}.filter[all criteria]", go(
            True, {"cam": 1, "max_error": 2.5, "min_weight": 1, "n_best": 4}),
            want([k for k in best(4) if size[k] <= 2.5]))
        for m in (1, 3):
            C.check(ctx, r, f"{form}.filter[best {m} of weight]", go(
                True, {"min_weight": 2, "n_best": m}),
                want([k for k in best(m) if order[k] >= 2]))
        C.check(ctx, r, f"{form}.filter[in turn]", go(
            True, {"n_best": 4}, {"cam": 1, "max_error": 2.5}, {"min_weight": 3}),
            want([k for k in best(4) if size[k] <= 2.5 and order[k] >= 3]))
        # a weight equal to the minimum is kept
        for k in every:
            C.check(ctx, r, f"{form}.filter[min_weight equal to weight {k}]", go(
                True, {"min_weight": W.data[k]}),
                want([j for j in every if order[j] >= order[k]]))
        C.check(ctx, r, f"{form}.filter[errors in the default camera]", go(
            True, {"max_error": 1e9, "n_best": 3}), want(best(3)))
        for kw in ({"n_best": 2}, {"min_weight": 0.5}):
            C.check_raises(ctx, r, f"{form}.filter[{list(kw)[0]} without weights]", go(
                False, kw))
        # distances between the points, in either camera
        D = (0.5, 3.0, 1.0, 2.0, 4.0)
        for ci in (0, 1):
            two = [None, None]
            two[1 - ci] = image_points("ud", n)
            sc = [cams[ci].sz.data[i] / cams[1 - ci].sz.data[i] for i in range(2)]
            two[ci] = V.to_arr([[add(mul(two[1 - ci].data[k, i], sc[i]), div(err[k][i], 1))
                                 for i in range(2)] for k in range(n)])
            for d, scaled in ((0.7, False), (1.5, False), (2.5, True), (9, False)):
                def far(l):
                    o = l.construct(l.prog.cls(form), [], dict(
                        cams=tuple(c.build(l) for c in cams),
                        uvs=[u.copy() for u in two], weights=W.copy()))
                    m = d / cams[ci].sz.data[0] if scaled else d
                    method(l, o, "filter", cam=ci, max_distance=m, scaled=scaled)
                    return state(l, o)
                ks = [k for k in every if D[k] <= d]
                both = [k for k in ks if k in best(4)]

                def chosen(l):
                    o = l.construct(l.prog.cls(form), [], dict(
                        cams=tuple(c.build(l) for c in cams),
                        uvs=[u.copy() for u in two], weights=W.copy()))
                    m = d / cams[ci].sz.data[0] if scaled else d
                    method(l, o, "filter", cam=ci, max_distance=m, scaled=scaled,
                           n_best=4)
                    return state(l, o)
                C.check(ctx, r, f"{form}.filter[best 4, max_distance {d} in camera {ci}"
                        f"{',scaled' if scaled else ''}]", lift(ctx, chosen),
                        ([take(u, both) for u in two], take(W, both), len(both)))
                C.check(ctx, r, f"{form}.filter[max_distance {d} in camera {ci}"
                        f"{',scaled' if scaled else ''}]", lift(ctx, far),
                        ([take(u, ks) for u in two], take(W, ks), len(ks)))
    # distances equal to the limit are kept, those in the default camera are compared
    for form in FORMS[:2]:
        P = [V.to_arr([[12.0 + k, 15.0 - k] for k in range(4)]) for _ in range(2)]
        for k, d in enumerate(((3, 4), (0, 5), (6, 8), (0, 0))):
            for i in (0, 1):
                P[1].data[k, i] = P[0].data[k, i] + d[i]
        for p in P:
            p.kind = "f"
        for m, ks in ((5, (0, 1, 3)), (10, range(4)), (4.999, (3,))):
            def tied(l):
                c = [x.build(l) for x in pair(sizes=(40, 30))]
                o = l.construct(l.prog.cls(form), [], dict(
                    cams=c, uvs=[p.copy() for p in P]))
                method(l, o, "filter", max_distance=m)
                return l.iterate(l.getattr(o, "uvs"))
            C.check(ctx, r, f"{form}.filter[distances equal to {m}]", lift(ctx, tied),
                    [take(p, ks) for p in P])
    # distances between images of different sizes
    for form, ci, m in itertools.product(FORMS[:2], (0, 1), (2.0, 4.5, 8.0)):
        sizes = [c.sz.data for c in cams]
        P = [V.to_arr([[5.0 + 9 * k, 225.0 - 6 * k] for k in range(4)]) for _ in range(2)]
        for k, d in enumerate((1.5, 4.0, 7.0, 9.0)):
            for i in (0, 1):
                P[ci].data[k, i] = P[1 - ci].data[k, i] * sizes[ci][i] / sizes[1 - ci][i] \
                    + d * (0.6, 0.8)[i]
        for p in P:
            p.kind = "f"

        def apart(l):
            o = l.construct(l.prog.cls(form), [], dict(
                cams=[x.build(l) for x in pair()], uvs=[p.copy() for p in P]))
            method(l, o, "filter", cam=ci, max_distance=m)
            return l.iterate(l.getattr(o, "uvs"))
        ks = [k for k, d in enumerate((1.5, 4.0, 7.0, 9.0)) if d <= m]
        C.check(ctx, r, f"{form}.filter[distances up to {m} in camera {ci}]", lift(
            ctx, apart), [take(p, ks) for p in P])
    # pre-computed coordinates
    xys = xys_of(cams, [A, B])
    for form in FORMS[2:]:
        for given in ("uvs", "xys", "uvs and xys"):
            def pre(l):
                d = {}
                if "uvs" in given:
                    d["uvs"] = [A.copy(), B.copy()]
                if "xys" in given:
                    d["xys"] = [x.copy() for x in xys]
                o = l.construct(l.prog.cls(form), [], dict(
                    cams=tuple(c.build(l) for c in cams), weights=W.copy(), **d))
                method(l, o, "filter", n_best=4)
                method(l, o, "filter", min_weight=3)
                uv = l.getattr(o, "uvs")
                return (l.iterate(l.getattr(o, "xys")), l.getattr(o, "weights"),
                        l.getattr(o, "size"), None if uv is None else l.iterate(uv),
                        method(l, o, "predicted", cam=1))
            ks = [k for k in range(n) if order[k] >= 3]
            C.check(ctx, r, f"{form}.filter[{given}]", lift(ctx, pre), (
                [take(x, ks) for x in xys], take(W, ks), len(ks),
                [take(A, ks), take(B, ks)] if "uvs" in given else None,
                stacked(predicted(form, cams, [A, B], 1, k) for k in ks)))


def types(ctx):
    r = "R6-types"
    cams = pair()
    uvs = [image_points("ua"), image_points("ub")]
    xys = xys_of(cams, uvs)
    w = V.sym_array("w", (4,), "pos")
    for a, b in itertools.product(FORMS, FORMS):
        for given in ("uvs", "xys"):
            if given == "xys" and a == "Matches":
                continue

            def body(l):
                built = [c.build(l) for c in cams]
                o = l.construct(l.prog.cls(a), [], dict(
                    cams=tuple(built), weights=w.copy(),
                    **{given: [x.copy() for x in (uvs if given == "uvs" else xys)]}))
                p = method(l, o, "to_type", V.ClassRef(l.prog.cls(b)))
                xs = l.iterate(l.getattr(p, "xys")) if b != "Matches" else xys
                us = l.getattr(p, "uvs")
                us = uvs if us is None and b in FORMS[2:] else l.iterate(us)
                return (p.cls.name, l.getattr(p, "weights"), us, xs,
                        method(l, p, "predicted", cam=1),
                        [x is y for x, y in zip(l.iterate(l.getattr(p, "cams")), built)])
            C.check(ctx, r, f"{a}.to_type[{b} from {given}]", lift(ctx, body), (
                b, w, uvs, xys, stacked(predicted(b, cams, uvs, 1, k) for k in range(4)),
                [True, True]))
