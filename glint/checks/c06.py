"""C06: projection of world points to image points follows the camera model."""
from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V

MATMUL = ("glimpse.config", "matmul")


def lift(ctx, body, matmul=False, assume=()):
    def setup(l):
        l.globals[MATMUL] = matmul
    return C.lift(ctx.prog, body, assume, setup=setup)


def method(l, o, name, *args, **kw):
    return l.call(l.getattr(o, name), list(args), kw)


def run(ctx):
    ctx.rule("R1-projection", "the value graph of the projection equals the documented "
             "camera model (translation, earth curvature and refraction for absolute "
             "coordinates only, rotation, perspective division, distortion, scaling) "
             "for every point and camera; points not in front of the camera are NaN")
    ctx.rule("R2-in-front", "a point is in front of the camera exactly when its depth "
             "along the optical axis is positive")
    ctx.rule("R3-in-frame", "an image point is in frame exactly when both coordinates "
             "lie within [0, image size]")
    ctx.rule("R4-elevation-correction", "the elevation correction equals the documented "
             "formula of squared distance, radius and refraction")
    n = T.dim("n")
    P = V.sym_array("P", (n, 3))
    q = list(P.data[0])
    corr = {"radius": T.sym("radius", (), "pos"), "refraction": T.sym("refr")}
    for matmul in (False, True):
        for directions in (False, True):
            for name, distortion, corr_arg, corr_spec in (
                    ("full", "full", False, None), ("ideal", "none", False, None),
                    ("corrected", "full", dict(corr), corr),
                    ("default-correction", "none", True, {}),
                    ("radius only", "none", {"radius": corr["radius"]},
                     {"radius": corr["radius"]}),
                    ("refraction only", "none", {"refraction": corr["refraction"]},
                     {"refraction": corr["refraction"]})):
                if name.endswith("only") and (directions or matmul):
                    continue
                cam = S.Cam(distortion, corr_arg)
                for depth in (False, True):
                    if depth and name in ("ideal",):
                        continue
                    out = lift(ctx, lambda l: method(
                        l, cam.build(l), "xyz_to_uv", P.copy(), directions=directions,
                        return_depth=depth), matmul)
                    uv, z = S.project(cam, q, directions, corr_spec)
                    want = S.rows(n, uv)
                    if depth:
                        want = (want, S.col(n, z))
                    C.check(ctx, "R1-projection",
                            f"Camera.xyz_to_uv[{name},directions={directions},"
                            f"return_depth={depth},matmul={matmul}]", out, want)
    # few coefficients, the others zero
    for ks in [(k,) for k in range(8)] + [(3, 4), (4, 5), (3, 5), (3, 6), (5, 7), (0, 3),
                                          (2, 5), (6, 7), (1, 2), (0, 6)]:
        cam = S.Cam(ks)
        C.check(ctx, "R1-projection", f"Camera.xyz_to_uv[coefficients {ks}]", lift(
            ctx, lambda l: method(l, cam.build(l), "xyz_to_uv", P.copy(),
                                  directions=True)),
            S.rows(n, S.project(cam, q, True, None)[0]))

    def picture(l, cam):
        return l.construct(l.prog.cls("Image"), ["a.jpg"], dict(
            cam=cam.build(l), datetime=T.sym("when", (), "datetime")))
    for kw in ({}, {"directions": True}, {"return_depth": True}):
        cam = S.Cam("full")
        uv, z = S.project(cam, q, bool(kw.get("directions")), None)
        want = S.rows(n, uv)
        C.check(ctx, "R1-projection", f"Image.xyz_to_uv[{', '.join(kw) or 'default'}]",
                lift(ctx, lambda l: method(l, picture(l, cam), "xyz_to_uv", P.copy(),
                                           **kw)),
                (want, S.col(n, z)) if "return_depth" in kw else want)
    Pt = V.sym_array("Pt", (n, 3), ("choice", (-1, 0, 1)))
    cam = S.Cam("full", True)
    out = lift(ctx, lambda l: method(l, cam.build(l), "xyz_to_uv", P.copy()))
    C.check(ctx, "R1-projection", "Camera.xyz_to_uv[default options]", out,
            S.rows(n, S.project(cam, q, False, {})[0]))
    out = lift(ctx, lambda l: method(l, cam.build(l), "infront", P.copy()))
    C.check(ctx, "R2-in-front", "Camera.infront[default options]", out, S.col(
        n, T.app("lt", 0, S.camera_xyz(cam, q, False)[2]), "b"))
    for directions in (False, True):
        cam = S.Cam("none", ties=True)
        out = lift(ctx, lambda l: method(l, cam.build(l), "xyz_to_uv", Pt.copy(),
                                         directions=directions))
        C.check(ctx, "R1-projection", "Camera.xyz_to_uv[on the camera plane,directions="
                f"{directions}]", out,
                S.rows(n, S.project(cam, list(Pt.data[0]), directions)[0]))
        out = lift(ctx, lambda l: method(l, cam.build(l), "infront", Pt.copy(),
                                         directions=directions))
        z = S.camera_xyz(cam, list(Pt.data[0]), directions)[2]
        C.check(ctx, "R2-in-front", "Camera.infront[on the camera plane,directions="
                f"{directions}]", out, S.col(n, T.app("lt", 0, z), "b"))
        cam = S.Cam("full", dict(corr))
        out = lift(ctx, lambda l: method(l, cam.build(l), "infront", P.copy(),
                                         directions=directions))
        z = S.camera_xyz(cam, q, directions)[2]
        C.check(ctx, "R2-in-front", f"Camera.infront[directions={directions}]", out,
                S.col(n, T.app("lt", 0, z), "b"))
    for nm, cam, dom in (("interior", S.Cam(), ("range", -5, 45)),
                         ("boundary", S.Cam(ties=True),
                          ("choice", (-1, 0, 1, 2, 3, 4, 5)))):
        U = V.sym_array("U" + nm, (n, 2), dom)
        out = lift(ctx, lambda l: method(l, cam.build(l), "inframe", U.copy()))
        ok = True
        for i in range(2):
            ok = T.land(ok, T.app("le", 0, U.data[0, i]),
                        T.app("le", U.data[0, i], cam.sz.data[i]))
        C.check(ctx, "R3-in-frame", f"Camera.inframe[{nm}]", out, S.col(n, ok, "b"))
        C.check(ctx, "R3-in-frame", f"Image.inbounds[{nm}]", lift(ctx, lambda l: method(
            l, picture(l, cam), "inbounds", U.copy())), S.col(n, ok, "b"))
    f = ctx.prog.func("helpers", "elevation_corrections")
    d2 = V.sym_array("d2", (n,), ("range", 1e6, 1e9))
    for nm, kw, sp in (("default", {}, {}), ("given", dict(corr), corr)):
        out = lift(ctx, lambda l: l.call_func(f, [d2.copy()], dict(kw)))
        C.check(ctx, "R4-elevation-correction", f"elevation_corrections[{nm}]", out,
                S.col(n, S.elevation_correction(d2.data[0], **sp)))
    ctx.need("R1-projection", 20)
    ctx.assumptions += [
        "real arithmetic; numpy semantics as tabulated in glint/vg",
        "equality of value graphs is decided by structural value numbering and "
        "interpretation at random points of the declared domains",
    ]
