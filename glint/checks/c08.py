"""C08: the rotation matrix and its derivative follow the view direction."""
from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from ..vg.diff import diff
from .c06 import lift, method


def run(ctx):
    ctx.rule("R1-rotation", "Camera.R is the rotation of the documented yaw, pitch and "
             "roll: its rows are the camera's right, down and optical axis")
    ctx.rule("R2-orthonormal", "the lifted rotation times its transpose is the identity "
             "and its determinant is one")
    ctx.rule("R3-derivative", "Camera.Rprime is the derivative of Camera.R with respect "
             "to each view angle (in degrees), derived from the lifted rotation itself")
    cam = S.Cam("none")
    out = lift(ctx, lambda l: l.getattr(cam.build(l), "R"))
    R = S.rotation(*cam.vd.data)
    C.check(ctx, "R1-rotation", "Camera.R", out, V.to_arr([list(r) for r in R]))

    def after_change(l):
        c = cam.build(l)
        l.getattr(c, "R")
        l.getattr(c, "Rprime")
        l.setattr(c, "viewdir", vd2.copy())
        return (l.getattr(c, "R"), l.getattr(c, "Rprime"))
    vd2 = S.vec("vd2", 3, ("range", -180.0, 180.0))
    R2 = S.rotation(*vd2.data)
    C.check(ctx, "R1-rotation", "Camera.R[after changing viewdir]",
            lift(ctx, lambda l: after_change(l)[0]), V.to_arr([list(r) for r in R2]))
    if out.value is not None and isinstance(out.value, V.Arr) and \
            out.value.data.shape == (3, 3):
        m = out.value.data
        eye = [[S.dot(m[i], m[j]) for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(i, 3):
                r = C.same(eye[i][j], 1 if i == j else 0)
                ctx.oblige("R2-orthonormal", f"Camera.R[rows {i},{j}]",
                           None if out.taint and not r.ok else r.ok, r.text())
        r = C.same(S.dot(S.cross(m[0], m[1]), m[2]), 1)
        ctx.oblige("R2-orthonormal", "Camera.R[determinant]",
                   None if out.taint and not r.ok else r.ok, r.text())
    else:
        ctx.oblige("R2-orthonormal", "Camera.R", None, "not lifted")
    # Rprime[j, k, i] = d R[i, j] / d viewdir[k]
    for nm, vd, Rs, body in (
            ("constructed", cam.vd, R, lambda l: l.getattr(cam.build(l), "Rprime")),
            ("after changing viewdir", vd2, R2, lambda l: after_change(l)[1])):
        D = [[[diff(Rs[i][j], vd.data[k]) for i in range(3)] for k in range(3)]
             for j in range(3)]
        C.check(ctx, "R3-derivative", f"Camera.Rprime[{nm}]", lift(ctx, body),
                V.to_arr(D))
    ctx.need("R1-rotation", 1)
    ctx.assumptions += [
        "real arithmetic; numpy semantics as tabulated in glint/vg",
        "equality of value graphs is decided by structural value numbering and "
        "interpretation at random points of the declared domains",
    ]
