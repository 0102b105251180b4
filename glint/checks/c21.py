"""C21: conversion to and from external camera models."""
import itertools

from ..spec import camera as S
from ..spec import external as X
from ..vg import compare as C
from ..vg import term as T
from ..vg import textmod
from ..vg import value as V
from ..vg import world
from ..vg.interp import PyError
from .c06 import lift, method

add, mul, sub, div = T.add, T.mul, T.sub, T.div
SIZE = (16, 8)
SMALL = ("range", 0.002, 0.02)

MODELS = {
    "Agisoft": (X.agisoft, ("f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1",
                            "b2")),
    "Matlab": (X.matlab, ("fc", "cc", "kc", "alpha_c")),
    "OpenCV": (X.opencv, ("fx", "fy", "cx", "cy", "k1", "k2", "k3", "k4", "k5", "k6",
                          "p1", "p2", "s1", "s2", "s3", "s4")),
    "PhotoModeler": (X.photomodeler, ("focal", "xp", "yp", "fw", "fh", "k1", "k2", "k3",
                                      "p1", "p2")),
}
LENGTH = {"fc": 2, "cc": 2, "kc": 5}
POSITIVE = ("f", "fc", "fx", "fy", "focal", "fw", "fh")
SCALE = ("b1", "b2", "alpha_c") + tuple(f"{a}{i}" for a in "kps" for i in range(1, 7)) + (
    "kc",)


def run(ctx):
    ctx.rule("R1-projection", "external cameras project points as documented by their "
             "software")
    ctx.rule("R2-exact", "converted cameras have the same image size and, where the "
             "conversion is exact, project every point to the same image coordinates")
    ctx.rule("R3-chosen", "other conversions optimize exactly the documented or chosen "
             "parameters, starting from the closest equivalent, and keep the others")
    ctx.rule("R4-residuals", "residuals are those of the cameras with the parameters "
             "tried, at the given points or an even grid")
    ctx.rule("R5-read", "calibration arrays and files are read to the parameters of the "
             "same name")
    ctx.rule("R6-rejected", "cameras of other sizes and incomplete calibrations are "
             "rejected")
    projections(ctx)
    to_camera(ctx)
    from_camera(ctx)
    optimized_cam(ctx)
    optimized_xcam(ctx)
    residuals(ctx)
    defaults(ctx)
    grids(ctx)
    arrays(ctx)
    files(ctx)
    rejected(ctx)
    ctx.need("R1-projection", 3)
    ctx.need("R2-exact", 3)


def delta(a, b):
    """Zero where two numbers are equal, or both unknown, relative to their size."""
    size = add(1, add(T.app("abs", a), T.app("abs", b)))
    return T.ite(T.land(T.app("isnan", a), T.app("isnan", b)), 0, div(sub(a, b), size))


# -- cameras ------------------------------------------------------------------------------
def symbol(name, zero=(), tag=""):
    n = LENGTH.get(name)
    if n:
        return tuple(0.0 if f"{name}{i}" in zero else symbol(f"{name}{i}", (), tag)
                     for i in range(n))
    if name in zero:
        return 0.0
    base = name.rstrip("0123456789") if name[:2] in ("fc", "cc", "kc") else name
    dom = ("range", 12.0, 20.0) if base in POSITIVE else SMALL if base in SCALE else \
        ("range", 0.5, 1.5)
    return T.sym(tag + name, (), dom)


def external(name, zero=(), tag=""):
    d = {"imgsz": SIZE}
    for k in MODELS[name][1]:
        d[k] = symbol(k, zero, tag)
    return d


def build(l, name, d):
    return l.construct(l.prog.cls(name), [], dict(d))


def camera(zero=(), sensor=False, square=False, tag="cam_"):
    d = {"imgsz": SIZE}
    for a, n, dom in (("f", 2, ("range", 12.0, 20.0)), ("c", 2, "real"), ("k", 6, SMALL),
                      ("p", 2, SMALL)):
        d[a] = tuple(0.0 if f"{a}{i}" in zero or a in zero else T.sym(
            f"{tag}{a}{i}", (), dom) for i in range(n))
    if square:
        # focal lengths equal in millimeters
        d.pop("f")
        d["fmm"] = T.sym(tag + "fmm", (), ("range", 6.0, 9.0))
    if sensor:
        d["sensorsz"] = (8.0, 2.0)
    return d


def shown(l, name, o):
    """Parameters of an external camera."""
    d = {}
    for k in ("imgsz", *MODELS[name][1]):
        v = l.getattr(o, k)
        d[k] = [l.getitem(v, i) for i in range(2 if k == "imgsz" else LENGTH[k])] \
            if k == "imgsz" or k in LENGTH else v
    return d


def view(l, cam):
    return {k: list(V.to_arr(l.getattr(cam, k)).data.flat)
            for k in ("imgsz", "f", "c", "k", "p")}


def points(n=2, tag=""):
    return V.sym_array(tag + "uv", (n, 2), ("range", 0.5, 6.5))


# -- projection ---------------------------------------------------------------------------
def converter(l, x, cam, uv):
    return l.construct(l.prog.cls("Converter"), [x, cam], {"uv": uv})


def projections(ctx):
    r = "R1-projection"
    for name, (spec, keys) in MODELS.items():
        every = [k + str(i) for k in LENGTH for i in range(LENGTH[k])] + list(keys)
        plain = [k for k in every if k[0] in "kpbs" or k == "alpha_c"]
        for tag, zero in (("full", ()), ("plain", plain)):
            d = external(name, zero)
            c = camera(("k", "p"))
            uv = points()

            def body(l):
                o = converter(l, build(l, name, d), l.construct(
                    l.prog.cls("Camera"), [], dict(c)), uv.copy())
                return method(l, o, "residuals")
            want = []
            for i in range(2):
                p = list(uv.data[i])
                if name == "PhotoModeler":
                    q = X.camera({**c}, *spec(d, *p))
                    want.append([sub(a, b) for a, b in zip(q, p)])
                else:
                    q = [div(sub(sub(p[j], div(SIZE[j], 2)), c["c"][j]), c["f"][j])
                         for j in range(2)]
                    want.append([sub(a, b) for a, b in zip(p, spec(d, *q))])
            C.check(ctx, r, f"{name}[{tag}]", lift(ctx, body), V.to_arr(want))


def same_projection(name, d, c, n=2):
    """Image coordinates of points in the external camera and the camera."""
    spec = MODELS[name][0]
    out = []
    for i in range(n):
        if name == "PhotoModeler":
            p = list(points().data[i])
            out.append((p, X.camera(c, *spec(d, *p))))
        else:
            p = [T.sym(f"xy{i}{j}", (), ("range", -1.0, 1.0)) for j in range(2)]
            out.append((spec(d, *p), X.camera(c, *p)))
    return out


INEXACT = {"Agisoft": ("k4", "b2"), "Matlab": ("alpha_c",),
           "OpenCV": ("s1", "s2", "s3", "s4"),
           "PhotoModeler": ("k1", "k2", "k3", "p1", "p2")}


def forget(d, keys):
    return {k: (0.0 if k in keys else v) for k, v in d.items()}


def to_camera(ctx):
    r = "R2-exact"
    for name in MODELS:
        for tag, zero, kw in (("exact", INEXACT[name], {}),
                              ("exact,chosen", INEXACT[name], {"optimize": {"k": True}}),
                              ("exact,no", INEXACT[name], {"optimize": False}),
                              ("inexact,no", (), {"optimize": False})):
            d = external(name, zero)

            def body(l):
                optimizer(l, unseen())      # not used where the conversion is exact
                o = build(l, name, d)
                cam = method(l, o, "to_camera", **kw)
                c = view(l, cam)
                got = same_projection(name, forget(shown(l, name, o), INEXACT[name]), c)
                return ([a for a, _ in got], [b for _, b in got], c["imgsz"])
            out = lift(ctx, body)
            want = same_projection(name, forget(d, INEXACT[name]), camera())
            a = [x for x, _ in want]
            C.check(ctx, r, f"{name}.to_camera[{tag}]", out, (a, a, list(SIZE)))


def from_camera(ctx):
    r = "R2-exact"
    for name in MODELS:
        pm = name == "PhotoModeler"
        inexact = ("k", "p") if pm else () if name == "OpenCV" else ("k3", "k4", "k5")
        for tag, zero, kw in (("exact", inexact, {}),
                              ("exact,chosen", inexact, {"optimize": {
                                  MODELS[name][1][0]: True}}),
                              ("exact,no", inexact, {"optimize": False}),
                              ("inexact,no", (), {"optimize": False})):
            if name == "OpenCV" and kw:
                continue
            c = camera(zero, pm, pm)

            def body(l):
                optimizer(l, unseen())
                cam = l.construct(l.prog.cls("Camera"), [], dict(c))
                cls = V.ClassRef(l.prog.cls(name))
                o = l.call(l.getattr(cls, "from_camera"), [cam], dict(kw))
                v = view(l, cam)
                for k in ("k", "p"):
                    v[k] = [0.0 if k in inexact or f"{k}{i}" in inexact else a
                            for i, a in enumerate(v[k])]
                got = same_projection(name, shown(l, name, o), v)
                return [[delta(a, b) for a, b in zip(*g)] for g in got], shown(
                    l, name, o)["imgsz"]
            out = lift(ctx, body)
            C.check(ctx, r, f"{name}.from_camera[{tag}]", out,
                    ([[0.0, 0.0], [0.0, 0.0]], list(SIZE)))


# -- optimization -------------------------------------------------------------------------
def found(v):
    """Where the stand-in for the optimizer ends, starting at v."""
    return add(mul(v, 1.25), 0.001)


def optimizer(l, seen):
    def least_squares(l, args, kwargs):
        d = dict(zip(("fun", "x0"), args))
        d.update(kwargs)
        for k in ("fun", "x0"):
            if k not in d:
                raise PyError(f"TypeError: missing argument {k}")
        x0 = V.to_arr(l.resolve(d["x0"]))
        if x0.ndim != 1:
            raise V.Unsupported("start of the optimizer")
        seen["count"] = len(x0.data)
        seen["kwargs"] = {k: v for k, v in d.items() if k not in ("fun", "x0")}
        # elsewhere last, so that the end is not taken for the last values tried
        for step in (found, lambda v: add(mul(v, 1.5), 0.002)):
            x = V.Arr(x0.data.copy(), x0.dims, "f")
            x.data[:] = [step(v) for v in x0.data]
            if step is found:
                seen["residuals"] = l.resolve(l.call(d["fun"], [x], {}))
            else:
                l.call(d["fun"], [x], {})
                x = V.Arr(x0.data.copy(), x0.dims, "f")
                x.data[:] = [found(v) for v in x0.data]
        return V.Obj("OptimizeResult", {"x": x, "success": True, "cost": 0.0})
    l.ext["scipy.optimize.least_squares"] = least_squares


def unseen():
    """What is seen if the optimizer is never called."""
    return {"count": 0, "kwargs": {}, "residuals": None}


def residuals_seen(seen, like):
    if seen["residuals"] is None:
        return V.full((len(like.data.ravel()),), 0.0)
    got = V.to_arr(seen["residuals"])
    if got.data.size != like.data.size:
        return V.full((len(like.data.ravel()),), 1e9)
    return got


OPTIONS = {"loss": "soft_l1", "max_nfev": 7}


def replaced(d, selected, scalar=False):
    """Parameters (lists) where the selected are those found."""
    out = dict(d)
    for k, sel in selected.items():
        v = d[k]
        one = not isinstance(v, (list, tuple))
        v = [v] if one else list(v)
        for i in range(len(v)) if sel is True else sel:
            v[i] = found(v[i])
        out[k] = v[0] if one else v
    return out


def zeros(name, but):
    return tuple(k for k in INEXACT[name] if k not in but)


def nums(seen):
    return sorted((k, v) for k, v in seen["kwargs"].items())


def optimized_cam(ctx):
    r = "R3-chosen"
    cases = []
    for nonzero, want in ((("k4",), "k"), (("b2",), "fck"), (("k4", "b2"), "fck")):
        cases.append(("Agisoft", nonzero, True, want))
    cases += [("Matlab", ("alpha_c",), True, "fckp")]
    cases += [("OpenCV", (x,), True, "kp") for x in ("s1", "s2", "s3", "s4")]
    cases += [("PhotoModeler", (x,), True, "k") for x in ("k1", "k2", "k3")]
    cases += [("PhotoModeler", (x,), True, "p") for x in ("p1", "p2")]
    cases += [("PhotoModeler", ("k2", "p1"), True, "kp")]
    for name in MODELS:
        for chosen in ({"f": True}, {"c": 0}, {"c": 1, "f": [0, 1]},
                       {"f": [1], "k": False, "c": True}):
            cases.append((name, INEXACT[name], chosen, None))
    uv = points()
    for name, nonzero, chosen, want in cases:
        d = external(name, zeros(name, nonzero))
        if want is not None:
            selected = {k: True for k in want}
        else:
            selected = {k: v if v is True else [v] if isinstance(v, int) else v
                        for k, v in chosen.items() if v is not False}

        def body(l):
            seen = unseen()
            optimizer(l, seen)
            o = build(l, name, d)
            start = view(l, method(l, o, "to_camera", optimize=False))
            kw = dict(OPTIONS, uv=uv.copy())
            if chosen is not True:
                kw["optimize"] = dict(chosen)
            cam = method(l, o, "to_camera", **kw)
            c = view(l, cam)
            # residuals of the cameras found
            end = replaced(start, selected)
            other = l.construct(l.prog.cls("Camera"), [], {
                k: tuple(v) for k, v in end.items()})
            res = V.to_arr(method(l, converter(l, o, other, uv.copy()), "residuals"))
            kept = shown(l, name, o)
            diff = [V.elementwise(delta, c[k], end[k]) for k in ("f", "c", "k", "p")]
            got = residuals_seen(seen, res)
            diff.append(V.elementwise(delta, got, res.data.ravel().tolist()))
            return diff, seen["count"], nums(seen), [
                V.elementwise(delta, kept[k], d[k]) for k in kept]
        count = sum({"f": 2, "c": 2, "k": 6, "p": 2}[k] if v is True else len(v)
                    for k, v in selected.items())
        zero = [V.full((n,), 0.0) for n in (2, 2, 6, 2, 4)]
        kept = [V.full((2,), 0)] + [V.full((LENGTH[k],), 0.0) if k in LENGTH else 0.0
                                    for k in MODELS[name][1]]
        C.check(ctx, r, f"{name}.to_camera[{'+'.join(nonzero)},{chosen}]",
                lift(ctx, body), (zero, count, sorted(OPTIONS.items()), kept))


def optimized_xcam(ctx):
    r = "R3-chosen"
    cases = [("Agisoft", (x,), True, {"k1": True, "k2": True, "k3": True})
             for x in ("k3", "k4", "k5")]
    cases += [("Matlab", (x,), True, {"kc": True}) for x in ("k3", "k4", "k5")]
    size = {a: True for a in ("focal", "fw", "fh", "xp", "yp")}
    radial = {a: True for a in ("k1", "k2", "k3")}
    tangential = {a: True for a in ("p1", "p2")}
    cases += [("PhotoModeler", (f"k{i}",), True, radial) for i in range(6)]
    cases += [("PhotoModeler", (f"p{i}",), True, tangential) for i in range(2)]
    cases += [("PhotoModeler", ("f",), True, size),
              ("PhotoModeler", ("f", "p1"), True, {**size, **tangential}),
              ("PhotoModeler", ("k1", "p1"), True, {**radial, **tangential}),
              ("PhotoModeler", ("f", "k0"), True, {**size, **radial})]
    every = tuple(f"k{i}" for i in range(6)) + ("p0", "p1")
    cases += [("Agisoft", every, {"f": True, "cx": True, "k4": True}, None),
              ("Agisoft", every, {"b2": True, "k1": False}, None),
              ("Agisoft", every, {"k1": 0, "p2": [0]}, None),
              ("Matlab", every, {"kc": [0, 4], "fc": True}, None),
              ("Matlab", every, {"kc": [4, 1], "alpha_c": True, "cc": 1}, None),
              ("Matlab", every, {"cc": 0, "fc": 1}, None),
              ("PhotoModeler", every, {"focal": True, "k3": True}, None)]
    uv = points()
    for name, nonzero, chosen, want in cases:
        pm = name == "PhotoModeler"
        zero = [f"{a}{i}" for a, n in (("k", 6), ("p", 2)) for i in range(n)
                if f"{a}{i}" not in nonzero]
        c = camera(zero, pm, pm and "f" not in nonzero)
        if want is not None:
            selected = want
        else:
            selected = {k: v if v is True or k not in LENGTH else
                        [v] if isinstance(v, int) else v
                        for k, v in chosen.items() if v is not False}
            selected = {k: v if k in LENGTH else True for k, v in selected.items()}

        def body(l):
            seen = unseen()
            optimizer(l, seen)
            cam = l.construct(l.prog.cls("Camera"), [], dict(c))
            before = V.to_arr(l.getattr(cam, "f")).copy()
            cls = V.ClassRef(l.prog.cls(name))
            kw = dict(OPTIONS, uv=uv.copy())
            if chosen is not True:
                kw["optimize"] = dict(chosen)
            start = shown(l, name, l.call(l.getattr(cls, "from_camera"), [cam], {
                "optimize": False}))
            o = l.call(l.getattr(cls, "from_camera"), [cam], kw)
            x = shown(l, name, o)
            end = replaced(start, selected)
            other = build(l, name, {k: tuple(v) if isinstance(v, list) else v
                                    for k, v in end.items()})
            res = V.to_arr(method(l, converter(l, other, cam, uv.copy()), "residuals"))
            diff = [V.elementwise(delta, x[k], end[k]) for k in end]
            got = residuals_seen(seen, res)
            diff.append(V.elementwise(delta, got, res.data.ravel().tolist()))
            same = V.elementwise(delta, l.getattr(cam, "f"), before)
            return diff, seen["count"], nums(seen), [
                l.getattr(cam, "k"), l.getattr(cam, "p"), same]
        count = sum(LENGTH.get(k, 1) if v is True else len(v)
                    for k, v in selected.items())
        zero = [V.full((2,), 0)] + [V.full((LENGTH[k],), 0.0) if k in LENGTH else 0.0
                                    for k in MODELS[name][1]] + [V.full((4,), 0.0)]
        C.check(ctx, r, f"{name}.from_camera[{'+'.join(nonzero)},{chosen}]",
                lift(ctx, body), (zero, count, sorted(OPTIONS.items()), [
                    V.to_arr(list(c["k"])), V.to_arr(list(c["p"])),
                    V.full((2,), 0.0)]))


# -- residuals ----------------------------------------------------------------------------
def residuals(ctx):
    """Residuals of distorted cameras, at image points that are inverted by the camera."""
    r = "R4-residuals"
    for name, (spec, keys) in MODELS.items():
        d = external(name)
        c = camera(("k3", "k4", "k5"))
        uv = points()

        def body(l):
            cam = l.construct(l.prog.cls("Camera"), [], dict(c))
            o = converter(l, build(l, name, d), cam, uv.copy())
            got = V.to_arr(method(l, o, "residuals"))
            rays = V.to_arr(method(l, cam, "uv_to_xyz", uv.copy()))
            # a camera that looks north and level
            xy = [[div(q[0], q[1]), div(mul(-1, q[2]), q[1])] for q in rays.data]
            out = []
            for i in range(2):
                p = list(uv.data[i])
                if name == "PhotoModeler":
                    q, p = X.camera(c, *spec(d, *p)), p
                else:
                    q, p = X.camera(c, *xy[i]), spec(d, *xy[i])
                out.append([delta(got.data[i, j], sub(q[j], p[j])) for j in range(2)])
            return V.to_arr(out)
        C.check(ctx, r, f"Converter.residuals[{name}]", lift(ctx, body),
                V.full((2, 2), 0.0))


def defaults(ctx):
    """Principal points that are not given, or given as zero."""
    for size in (SIZE, (15, 8), (9, 7)):
        for name, keys, half in (("Matlab", ("cc",), 0.5), ("OpenCV", ("cx", "cy"), 0)):
            d = external(name)
            for k in keys:
                d.pop(k)
            d["imgsz"] = size
            centre = [n / 2 - half for n in size]

            def body(l):
                x = shown(l, name, build(l, name, d))
                zero = shown(l, name, build(l, name, {**d, **{
                    k: (0, 0) if k == "cc" else 0 for k in keys}}))
                return [[list(v[k]) if k == "cc" else v[k] for k in keys]
                        for v in (x, zero)]
            C.check(ctx, "R1-projection", f"{name}[no centre,{size}]", lift(ctx, body),
                    [[centre], [[0, 0]]] if half else [centre, [0, 0]])


def grids(ctx):
    r = "R4-residuals"
    for size in ((40, 40), (60, 40), (40, 60), (90, 20), (50, 10), (100, 8), (6, 90)):
        for n in (1, 2, 4, 6, 10, 100):
            side = (size[0] * size[1] / n) ** 0.5
            counts = []
            for s in size:
                k = s / side
                if abs(k % 1 - 0.5) < 1e-6:
                    break
                counts.append(max(1, round(k)))
            else:
                x, y = ([(i + 0.5) * s / k for i in range(k)]
                        for s, k in zip(size, counts))
                d = {**external("OpenCV"), "imgsz": size}
                c = {**camera(), "imgsz": size}

                def body(l):
                    o = converter(l, build(l, "OpenCV", d), l.construct(
                        l.prog.cls("Camera"), [], dict(c)), n)
                    uv = l.getattr(o, "uv")
                    p = sorted(map(tuple, V.to_arr(uv).data.tolist()),
                               key=lambda p: (p[1], p[0]))
                    return V.to_arr([list(q) for q in p])
                C.check(ctx, r, f"Converter.uv[{n} of {size}]", lift(ctx, body),
                        V.to_arr([[a, b] for b in y for a in x]))


# -- reading ------------------------------------------------------------------------------
COEFFICIENTS = ("k1", "k2", "p1", "p2", "k3", "k4", "k5", "k6", "s1", "s2", "s3", "s4")


def arrays(ctx):
    r = "R5-read"
    d = external("OpenCV")
    matrix = [[d["fx"], 0.0, d["cx"]], [0.0, d["fy"], d["cy"]], [0.0, 0.0, 1.0]]

    def body(l):
        o = build(l, "OpenCV", d)
        return V.to_arr([list(x) for x in l.getattr(o, "cameraMatrix")]), list(
            l.getattr(o, "distCoeffs"))
    C.check(ctx, r, "OpenCV.cameraMatrix, OpenCV.distCoeffs", lift(ctx, body),
            (V.to_arr(matrix), [d[k] for k in COEFFICIENTS]))
    for n in (0, 4, 5, 8, 12, 14):
        values = [d[k] for k in COEFFICIENTS] + [0.5, 0.25]
        for as_array in (False, True):
            def body(l):
                m, v = [list(x) for x in matrix], values[:n]
                if as_array:
                    m, v = V.to_arr(m), V.to_arr(v) if v else V.full((0,), 0.0)
                o = l.call(l.getattr(V.ClassRef(l.prog.cls("OpenCV")), "from_arrays"),
                           [m, v, SIZE], {})
                x = shown(l, "OpenCV", o)
                return [x[k] for k in x]
            want = {**d, **{k: 0 for k in COEFFICIENTS[n:]}}
            C.check(ctx, r, f"OpenCV.from_arrays[{n}{',arrays' if as_array else ''}]",
                    lift(ctx, body), [list(want["imgsz"])] + [
                        want[k] for k in MODELS["OpenCV"][1]])


def numbers(names, start=0):
    """Numerals that stand for unknown values."""
    return {k: f"{1.0625 + start + i}e-03" for i, k in enumerate(names)}


AGISOFT = MODELS["Agisoft"][1]
CONSTANT = {"imgsz": SIZE}


def reads(ctx, name, method_name, text, table, want, tag, **kw):
    def body(l):
        files = world.Files(l, {"/a/file": text})
        textmod.Text(l, table, files)
        o = l.call(l.getattr(V.ClassRef(l.prog.cls(name)), method_name), ["/a/file"],
                   dict(kw))
        x = shown(l, name, o)
        return [x[k] for k in x]
    out = lift(ctx, body)
    if want is None:
        return C.check_raises(ctx, "R6-rejected", f"{name}.{method_name}[{tag}]", out)
    C.check(ctx, "R5-read", f"{name}.{method_name}[{tag}]", out, [
        list(want[k]) if isinstance(want[k], tuple) else want[k]
        for k in ("imgsz", *MODELS[name][1])])


def files(ctx):
    # Agisoft
    n = numbers(AGISOFT)
    sym = {v: T.sym("in_" + k, (), "pos") for k, v in n.items()}
    value = {k: sym[v] for k, v in n.items()}
    for tag, keys, extra in (("all", AGISOFT, ""), ("some", ("f", "k1", "b2"), ""),
                             ("empty", ("f", "cx"), "<k2></k2><p1 />"),
                             ("other", ("p1", "f", "p2"), "<date>today</date><k9>1</k9>"),
                             ("not frame", ("f",), None)):
        for wrap in ("{}", "<document><a/>{}</document>"):
            body = "".join(f"<{k}>{n[k]}</{k}>" for k in keys)
            kind = "frame" if extra is not None else "fisheye"
            text = wrap.format(f"<calibration><projection>{kind}</projection><width>16"
                               f"</width><height>8</height>{body}{extra}</calibration>")
            want = {"imgsz": SIZE, **{k: value[k] if k in keys else 0 for k in AGISOFT}}
            tag2 = tag + (",nested" if "document" in wrap else "")
            reads(ctx, "Agisoft", "from_xml", text, sym,
                  None if extra is None else want, tag2)
    reads(ctx, "Agisoft", "from_xml", "<document><a>1</a></document>", {}, None, "none")
    for kind in ("cylindrical", "spherical", "frames", "Frame"):
        reads(ctx, "Agisoft", "from_xml", "<calibration><width>16</width><height>8</height>"
              f"<f>1</f><projection>{kind}</projection></calibration>", {}, None, kind)
    # OpenCV
    keys = ("fx", "fy", "cx", "cy", *COEFFICIENTS)
    n = numbers(keys)
    sym = {v: T.sym("in_" + k, (), "pos") for k, v in n.items()}
    value = {k: sym[v] for k, v in n.items()}
    m = f" {n['fx']} 0. {n['cx']} 0.\n {n['fy']} {n['cy']} 0. 0. 1.\n"
    matrix = f"<camera_matrix><rows>3</rows><data>{m}</data></camera_matrix>"
    for k in (0, 4, 5, 8, 12):
        ds = " ".join(("-" if i % 2 else "") + n[c]
                      for i, c in enumerate(COEFFICIENTS[:k]))
        text = f"<opencv_storage>{matrix}" + (
            f"<distortion_coefficients><cols>1</cols><data>\n{ds}</data>"
            "</distortion_coefficients>" if k else "") + "</opencv_storage>"
        want = {"imgsz": SIZE, **value}
        for i, c in enumerate(COEFFICIENTS):
            want[c] = 0 if i >= k else mul(-1, value[c]) if i % 2 else value[c]
        reads(ctx, "OpenCV", "from_xml", text, sym, want, str(k), imgsz=SIZE)
    reads(ctx, "OpenCV", "from_xml", "<opencv_storage><distortion_coefficients><data>1 2 "
          "3 4</data></distortion_coefficients></opencv_storage>", {}, None, "no matrix",
          imgsz=SIZE)
    reads(ctx, "OpenCV", "from_xml", "<opencv_storage><camera_matrix><data></data>"
          "</camera_matrix></opencv_storage>", {}, None, "empty matrix", imgsz=SIZE)
    # Matlab
    flat = [f"{k}{i}" for k in ("fc", "cc", "kc") for i in range(LENGTH[k])] + ["alpha_c"]
    n, e = numbers(flat), numbers(flat, 40)
    sym = {v: T.sym("in_" + k, (), "pos") for k, v in n.items()}
    sym.update({v: T.sym("er_" + k, (), "pos") for k, v in e.items()})
    lines = ["% Comment: fc and cc = nx ;"]
    for suffix, x in (("", n), ("_error", e)):
        for k in ("fc", "cc", "kc"):
            lines.append(f"{k}{suffix} = [ " + " ; ".join(
                ("-" if i else "") + x[f"{k}{i}"] for i in range(LENGTH[k])) + " ];")
        lines.append(f"alpha_c{suffix} = {x['alpha_c']};")
    lines += ["nx = 16;", "ny = 8;", ""]
    for sigmas in (False, True):
        for tag, order in (("", lines), (",reversed", lines[::-1])):
            x = e if sigmas else n
            scale = 1 / 3 if sigmas else 1

            def val(k):
                v = mul(scale, sym[x[k]])
                return mul(-1, v) if k[-1] in "1234" else v
            want = {k: tuple(val(f"{k}{i}") for i in range(LENGTH[k]))
                    for k in ("fc", "cc", "kc")}
            want["alpha_c"] = val("alpha_c")
            want["imgsz"] = (0, 0) if sigmas else SIZE
            reads(ctx, "Matlab", "from_report", "\n".join(order), sym, want,
                  f"sigmas={sigmas}{tag}", sigmas=sigmas)
    # PhotoModeler
    labels = {"focal": "Focal Length", "xp": "Xp - principal point x",
              "yp": "Yp - principal point y", "fw": "Fw - format width",
              "fh": "Fh - format height", "k1": "K1 - radial distortion 1",
              "k2": "K2 - radial distortion 2", "k3": "K3 - radial distortion 3",
              "p1": "P1 - decentering distortion 1",
              "p2": "P2 - decentering distortion 2"}
    n, e = numbers(labels), numbers(labels, 40)
    sym = {v: T.sym("in_" + k, (), "pos") for k, v in n.items()}
    sym.update({v: T.sym("er_" + k, (), "pos") for k, v in e.items()})
    for tag, missing, fixed in (("all", (), ()), ("some", ("k3", "p2"), ("fh", "k1")),
                                ("fixed", (), ("focal", "p1", "k2"))):
        lines = ["Status Report Tree", "", "Project Name: K1", "   Calibration"]
        for k, label in labels.items():
            if k in missing:
                continue
            unit = "" if k[0] in "kp" and k[1] in "123" else " mm"
            sign = "-" if k in ("k2", "p1", "xp") else ""
            lines += [f"            {label}", f"               Value: {sign}{n[k]}{unit}"]
            if k not in fixed:
                lines += [f"               Deviation: {label.split()[0]}: {e[k]}{unit}"]
        lines += ["", "Quality", "   Photographs"]
        for sigmas in (False, True):
            want = {"imgsz": SIZE}
            for k in labels:
                v = sym[e[k] if sigmas else n[k]]
                if k in ("k2", "p1", "xp") and not sigmas:
                    v = mul(-1, v)
                want[k] = 0.0 if k in missing or sigmas and k in fixed else v
            reads(ctx, "PhotoModeler", "from_report", "\n".join(lines), sym, want,
                  f"sigmas={sigmas},{tag}", imgsz=SIZE, sigmas=sigmas)


# -- rejected -----------------------------------------------------------------------------
def rejected(ctx):
    r = "R6-rejected"
    for size in ((16, 9), (15, 8), (8, 16), (32, 16)):
        c = {**camera(), "imgsz": size}

        def body(l):
            return converter(l, build(l, "Matlab", external("Matlab")), l.construct(
                l.prog.cls("Camera"), [], dict(c)), points())
        C.check_raises(ctx, r, f"Converter[{size}]", lift(ctx, body), "ValueError")

    def body(l):
        cam = l.construct(l.prog.cls("Camera"), [], camera())
        return l.call(l.getattr(V.ClassRef(l.prog.cls("PhotoModeler")), "from_camera"),
                      [cam], {})
    C.check_raises(ctx, r, "PhotoModeler.from_camera[no sensor]", lift(ctx, body),
                   "ValueError")
