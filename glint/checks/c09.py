"""C09: camera parameters, units, resizing and resetting."""
from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from ..vg.scipymod import differential_evolution
from .c06 import lift, method

LAYOUT = [("xyz", 3), ("viewdir", 3), ("imgsz", 2), ("f", 2), ("c", 2), ("k", 6),
          ("p", 2)]


def arr(*xs, kind="f"):
    a = V.to_arr(list(xs))
    a.kind = kind
    return a


def floor_half(x):
    return T.app("floor", T.add(x, 0.5))


def build(l, **kw):
    return l.construct(l.prog.cls("Camera"), [], kw)


def run(ctx):
    ctx.rule("R1-parameters", "every documented camera parameter is stored and returned "
             "as given (scalars repeated, missing trailing coefficients zero), and the "
             "camera vector and dictionary list them in the documented order")
    ctx.rule("R2-millimetres", "focal length and principal point in millimetres and in "
             "pixels are related by sensor size over image size")
    ctx.rule("R3-resize", "resizing scales image size, focal length and principal point "
             "together, always relative to the original image size, and nothing else")
    ctx.rule("R4-reset", "resetting restores the state at construction (or copying), "
             "idealizing removes only distortion")
    ctx.rule("R5-rejects", "missing, contradictory or non-integer parameters are "
             "rejected")
    names = [a for a, _ in LAYOUT]

    def state(l, c):
        return tuple([l.getattr(c, a) for a in names] + [method(l, c, "to_array")])

    def spec(d):
        vec = []
        for a, _ in LAYOUT:
            vec += list(d[a].data)
        return tuple([d[a] for a in names] + [V.to_arr(vec)])

    def params(cam, **over):
        d = dict(xyz=cam.xyz, viewdir=cam.vd, imgsz=cam.sz, f=cam.f, c=cam.c, k=cam.k,
                 p=cam.p)
        d.update(over)
        return d

    cam = S.Cam("full", sensor=True, moved=False)
    late = S.Cam("full", sensor=True)
    base = params(cam)
    zero = lambda n: arr(*[0.0] * n)            # noqa: E731
    C.check(ctx, "R1-parameters", "Camera[all parameters]",
            lift(ctx, lambda l: state(l, cam.build(l))), spec(base))
    s, f1 = T.sym("s", (), "posint"), T.sym("f1", (), "pos")
    C.check(ctx, "R1-parameters", "Camera[scalar size and focal length, defaults]",
            lift(ctx, lambda l: state(l, build(l, imgsz=s, f=f1))), spec(dict(
                xyz=zero(3), viewdir=zero(3), imgsz=arr(s, s, kind="i"), f=arr(f1, f1),
                c=zero(2), k=zero(6), p=zero(2))))
    k1, k2, p1, cx = (T.sym(n) for n in ("k1", "k2", "p1", "cx"))
    C.check(ctx, "R1-parameters", "Camera[partial coefficients]",
            lift(ctx, lambda l: state(l, build(l, imgsz=s, f=f1, k=(k1, k2), p=p1, c=cx))),
            spec(dict(xyz=zero(3), viewdir=zero(3), imgsz=arr(s, s, kind="i"),
                      f=arr(f1, f1), c=arr(cx, 0.0), k=arr(k1, k2, 0.0, 0.0, 0.0, 0.0),
                      p=arr(p1, 0.0))))
    x0, x1, v0 = (T.sym(n) for n in ("x0", "x1", "v0"))
    C.check(ctx, "R1-parameters", "Camera[partial position and direction]",
            lift(ctx, lambda l: state(l, build(l, imgsz=s, f=f1, xyz=(x0, x1),
                                               viewdir=v0))),
            spec(dict(xyz=arr(x0, x1, 0.0), viewdir=arr(v0, 0.0, 0.0),
                      imgsz=arr(s, s, kind="i"), f=arr(f1, f1), c=zero(2), k=zero(6),
                      p=zero(2))))
    # whatever holds them: arrays, tuples and lists, too long or too short
    k3, f2, c2 = T.sym("k3"), T.sym("f2", (), "pos"), T.sym("c2")
    for how, box in (("arrays", lambda *v: arr(*v)), ("tuples", lambda *v: tuple(v)),
                     ("lists", lambda *v: list(v))):
        C.check(ctx, "R1-parameters", f"Camera[short {how}]", lift(
            ctx, lambda l: state(l, build(
                l, imgsz=box(s), f=box(f1), k=box(k1, k2, k3), p=box(p1), c=box(cx),
                xyz=box(x0, x1), viewdir=box(v0)))),
            spec(dict(xyz=arr(x0, x1, 0.0), viewdir=arr(v0, 0.0, 0.0),
                      imgsz=arr(s, s, kind="i"), f=arr(f1, f1), c=arr(cx, 0.0),
                      k=arr(k1, k2, k3, 0.0, 0.0, 0.0), p=arr(p1, 0.0))))
        C.check(ctx, "R1-parameters", f"Camera[long {how}]", lift(
            ctx, lambda l: state(l, build(
                l, imgsz=box(s, s, 5), f=box(f1, f2, 7.5), c=box(cx, c2, 2.5, 1.5),
                p=box(p1, k1, k2)))),
            spec(dict(xyz=zero(3), viewdir=zero(3), imgsz=arr(s, s, kind="i"),
                      f=arr(f1, f2), c=arr(cx, c2), k=zero(6), p=arr(p1, k1))))

        def assigned(l):
            c = build(l, imgsz=s, f=f1)
            l.setattr(c, "f", box(f2))
            l.setattr(c, "k", box(k1, k2))
            l.setattr(c, "sensorsz", box(f2))
            l.setattr(c, "cmm", box(c2))
            return state(l, c)[3:6]
        C.check(ctx, "R1-parameters", f"Camera.f, k, sensorsz, cmm[short {how}]", lift(
            ctx, assigned), (arr(f2, f2), arr(T.div(T.mul(c2, s), f2), 0.0), arr(
                k1, k2, 0.0, 0.0, 0.0, 0.0)))
    fl = ctx.prog.func("helpers", "format_list")
    a, b, z = (T.sym(n) for n in ("el_a", "el_b", "el_z"))
    for nm, x, kw, want in (
            ("one", a, {}, [a]), ("one repeated", a, {"length": 3}, [a, a, a]),
            ("as given", (a, b, z), {}, [a, b, z]),
            ("repeated", (a, b), {"length": 4}, [a, b, a, b]),
            ("repeated array", arr(a, b), {"length": 6}, [a, b, a, b, a, b]),
            ("shorter", (a, b, z), {"length": 2}, [a, b]),
            ("shorter, default", (a, b, z), {"length": 2, "default": 0}, [a, b]),
            ("default", arr(a, b), {"length": 4, "default": z}, [a, b, z, z]),
            ("zero as default", (a,), {"length": 3, "default": 0}, [a, 0, 0]),
            ("equal", [a, b], {"length": 2, "default": z}, [a, b])):
        C.check(ctx, "R1-parameters", f"helpers.format_list[{nm}]", lift(
            ctx, lambda l: l.call_func(fl, [x.copy() if isinstance(x, V.Arr) else x],
                                       dict(kw))), want)
    for nm, x, n in (("two to three", (a, b), 3), ("three to four", (a, b, z), 4),
                     ("three to five", (a, b, z), 5), ("two to five", (a, b), 5)):
        C.check_raises(ctx, "R5-rejects", f"helpers.format_list[{nm}]", lift(
            ctx, lambda l: l.call_func(fl, [x, n], {})))
    C.check(ctx, "R1-parameters", "Camera.to_dict", lift(
        ctx, lambda l: method(l, cam.build(l), "to_dict")),
        {a: list(base[a].data) for a in names})
    C.check(ctx, "R1-parameters", "Camera.to_dict[attributes]", lift(
        ctx, lambda l: method(l, cam.build(l), "to_dict", ("f", "sensorsz", "imgsz"))),
        {"f": list(cam.f.data), "sensorsz": list(cam.ss.data),
         "imgsz": list(cam.sz.data)})
    # each attribute can be set afterwards without touching the others
    for a, n in LAYOUT:
        new = S.vec("new_" + a, n, "posint" if a == "imgsz" else "real")

        def put(l):
            c = cam.build(l)
            l.setattr(c, a, new.copy())
            return state(l, c) + (l.getattr(c, "sensorsz"),)
        C.check(ctx, "R1-parameters", f"Camera.{a}[assigned]", lift(ctx, put),
                spec(params(cam, **{a: new})) + (cam.ss,))
    ss1 = T.sym("ss1", (), "pos")
    C.check(ctx, "R1-parameters", "Camera.sensorsz[scalar]", lift(
        ctx, lambda l: l.getattr(build(l, imgsz=s, f=f1, sensorsz=ss1), "sensorsz")),
        arr(ss1, ss1))
    C.check(ctx, "R1-parameters", "Camera.sensorsz[missing]", lift(
        ctx, lambda l: l.getattr(build(l, imgsz=s, f=f1), "sensorsz")), None)

    # -- millimetres -------------------------------------------------------------
    fmm, cmm = S.vec("fmm", 2, "pos"), S.vec("cmm", 2)

    def px(v):
        return arr(*[T.div(T.mul(v.data[i], cam.sz.data[i]), cam.ss.data[i])
                     for i in range(2)])

    def mm(v):
        return arr(*[T.div(T.mul(v.data[i], cam.ss.data[i]), cam.sz.data[i])
                     for i in range(2)])

    def with_mm(l, **kw):
        return build(l, imgsz=cam.sz.copy(), sensorsz=cam.ss.copy(), **kw)
    C.check(ctx, "R2-millimetres", "Camera[fmm,cmm]", lift(ctx, lambda l: (lambda c: tuple(
        l.getattr(c, a) for a in ("f", "c", "fmm", "cmm")))(with_mm(
            l, fmm=fmm.copy(), cmm=cmm.copy()))), (px(fmm), px(cmm), fmm, cmm))
    C.check(ctx, "R2-millimetres", "Camera[fmm scalar,c]", lift(ctx, lambda l: (
        lambda c: tuple(l.getattr(c, a) for a in ("f", "c")))(with_mm(
            l, fmm=f1, c=cam.c.copy()))), (px(arr(f1, f1)), cam.c))
    C.check(ctx, "R2-millimetres", "Camera[f,cmm]", lift(ctx, lambda l: (
        lambda c: tuple(l.getattr(c, a) for a in ("f", "c")))(with_mm(
            l, f=cam.f.copy(), cmm=cmm.copy()))), (cam.f, px(cmm)))
    C.check(ctx, "R2-millimetres", "Camera.fmm, Camera.cmm", lift(
        ctx, lambda l: (lambda c: (l.getattr(c, "fmm"), l.getattr(c, "cmm")))(
            cam.build(l))), (mm(cam.f), mm(cam.c)))
    C.check(ctx, "R2-millimetres", "Camera.fmm, Camera.cmm[no sensor size]", lift(
        ctx, lambda l: (lambda c: (l.getattr(c, "fmm"), l.getattr(c, "cmm")))(
            build(l, imgsz=s, f=f1))), (None, None))

    for nm, which in (("", cam), (" after other changes", late)):
        def set_mm(l):
            c = which.build(l)
            l.setattr(c, "fmm", fmm.copy())
            l.setattr(c, "cmm", cmm.copy())
            return state(l, c)
        C.check(ctx, "R2-millimetres", f"Camera.fmm, Camera.cmm[assigned{nm}]",
                lift(ctx, set_mm), spec(params(cam, f=px(fmm), c=px(cmm))))
    C.check(ctx, "R2-millimetres", "Camera.fmm, Camera.cmm[after other changes]", lift(
        ctx, lambda l: (lambda c: (l.getattr(c, "fmm"), l.getattr(c, "cmm")))(
            late.build(l))), (mm(cam.f), mm(cam.c)))
    C.check(ctx, "R1-parameters", "Camera.copy", lift(
        ctx, lambda l: state(l, method(l, late.build(l), "copy"))), spec(base))

    def taken(l):
        # what a camera returns as its vector, copies and dictionary is not the camera
        c = cam.build(l)
        v = method(l, c, "to_array")
        d = method(l, c, "copy")
        l.setitem(v, slice(None), 7.5)
        for a, n in LAYOUT:
            l.setattr(d, a, S.vec("copied_" + a, n, "posint" if a == "imgsz" else "real"))
        return state(l, c)

    def given(l):
        # arrays given to a camera are not the camera
        kw = {a: v.copy() for a, v in base.items()}
        c = build(l, sensorsz=cam.ss.copy(), **kw)
        method(l, c, "idealize")
        method(l, c, "resize", 2)
        l.setattr(c, "xyz", (1, 2, 3))
        return tuple(kw[a] for a in names)
    C.check(ctx, "R1-parameters", "Camera.to_array, Camera.copy[independent]",
            lift(ctx, taken), spec(base))
    C.check(ctx, "R1-parameters", "Camera[arrays given are kept]", lift(ctx, given),
            tuple(base[a] for a in names))

    # -- resizing ----------------------------------------------------------------
    u, w = T.sym("u", (), ("range", 0.6, 3.0)), T.sym("w", (), ("range", 0.6, 3.0))

    def scaled(*factors):
        sz, f, c = list(cam.sz.data), list(cam.f.data), list(cam.c.data)
        for q in factors:
            new = [floor_half(T.mul(q, o)) for o in cam.sz.data] if not isinstance(
                q, list) else q
            r = [T.div(a, b) for a, b in zip(new, sz)]
            sz, f, c = new, [T.mul(a, b) for a, b in zip(f, r)], [
                T.mul(a, b) for a, b in zip(c, r)]
        return spec(params(cam, imgsz=arr(*sz, kind="i"), f=arr(*f), c=arr(*c)))

    def resized(*steps):
        def body(l):
            c = cam.build(l)
            for a, kw in steps:
                method(l, c, "resize", *a, **kw)
            return state(l, c)
        return body
    C.check(ctx, "R3-resize", "Camera.resize[factor]", lift(ctx, resized(((u,), {}))),
            scaled(u))
    C.check(ctx, "R3-resize", "Camera.resize[two factors in turn]", lift(ctx, resized(
        ((u,), {}), ((w,), {}))), scaled(u, w))
    C.check(ctx, "R3-resize", "Camera.resize[default after a factor]", lift(ctx, resized(
        ((u,), {}), ((), {}))), scaled(u, 1))
    tgt = S.vec("target", 2, "posint")
    C.check(ctx, "R3-resize", "Camera.resize[target size,force]", lift(ctx, resized(
        ((tgt.copy(),), {"force": True}))), scaled(list(tgt.data)))
    C.check(ctx, "R3-resize", "Camera.resize[target size,force, after a factor]",
            lift(ctx, resized(((u,), {}), ((tgt.copy(),), {"force": True}))),
            scaled(u, list(tgt.data)))
    C.check(ctx, "R3-resize", "Camera.resize[factor,force]", lift(ctx, resized(
        ((u,), {"force": True}))), scaled(u))
    cam2 = S.Cam("full", sensor=True, sizes=(40, 30), moved=False)
    for size, ratio, last in [(*case, last) for last in (False, True) for case in (
            ((80, 60), (2, 2)), ((40, 30), (1, 1)), ((20, 15), (0.5, 0.5)),
            ((41, 31), (41 / 40, 31 / 30)), ((67, 50), (67 / 40, 50 / 30)),
            ((39, 29), (39 / 40, 29 / 30)))]:
        def body(l):
            # the search may end at either end of a range of equally good factors
            def search(l, args, kwargs):
                return differential_evolution(l, *args, **{**kwargs, "backwards": True})
            if last:
                l.ext["scipy.optimize.differential_evolution"] = search
            c = cam2.build(l)
            method(l, c, "resize", size)
            return state(l, c)
        C.check(ctx, "R3-resize", f"Camera.resize[target size {size}"
                f"{', last factor' * last}]", lift(ctx, body),
                spec(params(cam2, imgsz=arr(*size, kind="i"), f=arr(*[
                    T.mul(x, r) for x, r in zip(cam2.f.data, ratio)]), c=arr(*[
                        T.mul(x, r) for x, r in zip(cam2.c.data, ratio)]))))

    odd = S.Cam("full", sensor=True, sizes=(5, 7), moved=False)
    for q, size in ((0.5, (3, 4)), (0.3, (2, 2)), (1.5, (8, 11)), (0.1, (1, 1))):
        def body(l):
            c = odd.build(l)
            method(l, c, "resize", q)
            return state(l, c)
        C.check(ctx, "R3-resize", f"Camera.resize[5 x 7 by {q}]", lift(ctx, body),
                spec(params(odd, imgsz=arr(*size, kind="i"), f=arr(*[
                    T.mul(x, n / o) for x, n, o in zip(odd.f.data, size, (5, 7))]),
                    c=arr(*[T.mul(x, n / o) for x, n, o in zip(
                        odd.c.data, size, (5, 7))]))))

    for size in ((41, 70), (80, 30), (40, 32), (38, 30)):
        C.check_raises(ctx, "R5-rejects", f"Camera.resize[other aspect ratio {size}]", lift(
            ctx, lambda l: method(l, cam2.build(l), "resize", size)))

    # -- reset and idealize --------------------------------------------------------
    other = S.Cam("full", prefix="o", moved=False)

    def scramble(l, c):
        for (a, n), v in zip(LAYOUT, (other.xyz, other.vd, other.sz, other.f, other.c,
                                      other.k, other.p)):
            l.setattr(c, a, v.copy())

    def reset(l):
        c = cam.build(l)
        scramble(l, c)
        method(l, c, "reset")
        return state(l, c)

    def reset_copy(l):
        c = cam.build(l)
        scramble(l, c)
        d = method(l, c, "copy")
        for a, n in LAYOUT:
            l.setattr(d, a, S.vec("third_" + a, n, "posint" if a == "imgsz" else "real"))
        method(l, d, "reset")
        first = state(l, d)
        method(l, c, "reset")
        return (first, state(l, c), l.getattr(d, "sensorsz"))

    def reset_twice(l):
        c = cam.build(l)
        method(l, c, "reset")
        scramble(l, c)
        method(l, c, "reset")
        return state(l, c)

    def reset_resized(l):
        c = cam.build(l)
        method(l, c, "resize", u)
        method(l, c, "reset")
        return state(l, c)

    def ideal(l):
        c = cam.build(l)
        method(l, c, "idealize")
        first = state(l, c)
        method(l, c, "reset")
        return (first, state(l, c))
    o = dict(xyz=other.xyz, viewdir=other.vd, imgsz=other.sz, f=other.f, c=other.c,
             k=other.k, p=other.p)
    C.check(ctx, "R4-reset", "Camera.reset", lift(ctx, reset), spec(base))
    C.check(ctx, "R4-reset", "Camera.reset[twice]", lift(ctx, reset_twice), spec(base))
    C.check(ctx, "R4-reset", "Camera.reset[after resize]", lift(ctx, reset_resized),
            spec(base))
    C.check(ctx, "R4-reset", "Camera.copy then reset", lift(ctx, reset_copy),
            (spec(o), spec(base), cam.ss))
    C.check(ctx, "R4-reset", "Camera.idealize", lift(ctx, ideal), (spec(params(
        cam, c=zero(2), k=zero(6), p=zero(2))), spec(base)))

    # -- rejected parameters -------------------------------------------------------
    frac = arr(T.add(s, 0.5), s)
    for nm, kw in (
            ("no focal length", dict(imgsz=s)),
            ("fmm without sensor size", dict(imgsz=s, fmm=f1)),
            ("cmm without sensor size", dict(imgsz=s, f=f1, cmm=cx)),
            ("both f and fmm", dict(imgsz=s, f=f1, fmm=f1, sensorsz=ss1)),
            ("both c and cmm", dict(imgsz=s, f=f1, c=cx, cmm=cx, sensorsz=ss1)),
            ("fractional image width", dict(imgsz=frac, f=f1)),
            ("fractional image height", dict(imgsz=arr(s, T.add(s, 0.25)), f=f1))):
        C.check_raises(ctx, "R5-rejects", f"Camera[{nm}]",
                       lift(ctx, lambda l: build(l, **{k: v.copy() if isinstance(
                           v, V.Arr) else v for k, v in kw.items()})))
    for a in ("fmm", "cmm"):
        def setmm(l):
            c = build(l, imgsz=s, f=f1)
            l.setattr(c, a, f1)
        C.check_raises(ctx, "R5-rejects", f"Camera.{a}[assigned without sensor size]",
                       lift(ctx, setmm))

    def bad_size(l):
        l.setattr(cam.build(l), "imgsz", frac.copy())
    C.check_raises(ctx, "R5-rejects", "Camera.imgsz[assigned fractional]",
                   lift(ctx, bad_size))
    ctx.need("R1-parameters", 5)
    ctx.need("R3-resize", 3)
    ctx.assumptions += [
        "real arithmetic; numpy semantics as tabulated in glint/vg",
        "equality of value graphs is decided by structural value numbering and "
        "interpretation at random points of the declared domains",
    ]
