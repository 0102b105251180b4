"""C07: inverse projection is the inverse of the camera model."""
from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method


def spherical(q):
    """Azimuth (clockwise from north) and altitude in degrees, and distance."""
    r = T.sqrt(S.dot(q, q))
    az = T.app("mod", T.mul(T.app("arctan2", q[0], q[1]), 180 / S.math.pi), 360)
    alt = T.mul(T.app("arctan2", q[2], T.sqrt(S.dot(q[:2], q[:2]))), 180 / S.math.pi)
    return az, alt, r


def reversible(ctx):
    for sizes in ((5, 4), (2, 6), (1, 3)):
        for moved in (False, True):
            cam = S.Cam("none", sizes=sizes, moved=moved)
            cam.f = S.vec("f", 2, ("range", 1, 4))
            cam.k = S.vec("k", 6, ("range", -0.3, 0.3))
            cam.p = S.vec("p", 2, ("range", -0.2, 0.2))
            want = True
            for i, (n, f) in enumerate(zip(sizes, cam.f.data)):
                at = []
                for j in range(n):
                    x = T.mul(T.div(n, T.mul(2, f)), -1 + 2 * j / (n - 1) if n > 1 else -1)
                    at.append(S.distort(*((x, 0) if i == 0 else (0, x)), cam.k.data,
                                        cam.p.data)[i])
                for a, b in zip(at, at[1:]):
                    want = T.land(want, T.app("le", a, b))
            C.check(ctx, "R4-reversible", f"Camera.reversible[{sizes},moved={moved}]", lift(
                ctx, lambda l: method(l, cam.build(l), "reversible")), want)


def run(ctx):
    ctx.rule("R1-inverse", "image points of a distortion-free camera map to the ray or "
             "point given by the inverse camera model, for scalar and per-point depths, "
             "relative or absolute")
    ctx.rule("R2-round-trip", "projecting an unprojected image point returns the image "
             "point (closed-form first-order radial distortion, and small general "
             "distortion)")
    ctx.rule("R3-spherical", "spherical and euclidean world coordinates are converted "
             "by the documented formulas, which invert each other")
    ctx.rule("R4-reversible", "distortion is reversible if image coordinates increase "
             "along the central row and column")
    reversible(ctx)
    n = T.dim("n")
    U = V.sym_array("U", (n, 2))
    d1 = T.sym("dep", (), ("range", 1.2, 9.0))
    dn = V.sym_array("depn", (n,), ("range", 0.2, 9.0))
    one = V.sym_array("dep1", (1,), ("range", 0.2, 9.0))
    for matmul in (False, True):
        for directions in (True, False):
            for nm, dep, spec in (("1", 1, 1), ("2", 2, 2), ("scalar", d1, d1),
                                  ("vector", dn, dn.data[0]),
                                  ("one-element vector", one, one.data[0])):
                cam = S.Cam("none")
                out = lift(ctx, lambda l: method(
                    l, cam.build(l), "uv_to_xyz", U.copy(), directions=directions,
                    depth=dep.copy() if isinstance(dep, V.Arr) else dep), matmul)
                C.check(ctx, "R1-inverse", f"Camera.uv_to_xyz[directions={directions},"
                        f"depth {nm},matmul={matmul}]", out, S.rows(
                            n, S.unproject(cam, list(U.data[0]), directions, spec)))
    cam = S.Cam("none")
    U2 = V.sym_array("U2", (3, 2))
    for deps in ((1.0, 2.0, 1.0), (1.0, 1.0, 1.0), (1, 3, 2)):
        for directions in (True, False):
            C.check(ctx, "R1-inverse", f"Camera.uv_to_xyz[directions={directions},depths "
                    f"{deps}]", lift(ctx, lambda l: method(
                        l, cam.build(l), "uv_to_xyz", U2.copy(), directions=directions,
                        depth=V.to_arr(list(deps)))), V.to_arr(
                            [S.unproject(cam, list(U2.data[i]), directions, deps[i])
                             for i in range(3)]))
    out = lift(ctx, lambda l: method(l, cam.build(l), "uv_to_xyz", U.copy()))
    C.check(ctx, "R1-inverse", "Camera.uv_to_xyz[default options]", out,
            S.rows(n, S.unproject(cam, list(U.data[0]), True, 1)))
    for kw, dr, dp in (({}, False, 1), ({"directions": True}, True, 1),
                       ({"depth": d1}, False, d1), ({"directions": True, "depth": d1},
                                                    True, d1)):
        C.check(ctx, "R1-inverse", f"Image.uv_to_xyz[{', '.join(kw) or 'default'}]", lift(
            ctx, lambda l: method(l, l.construct(l.prog.cls("Image"), ["a.jpg"], dict(
                cam=cam.build(l), datetime=T.sym("when", (), "datetime"))), "uv_to_xyz",
                U.copy(), **kw)), S.rows(n, S.unproject(cam, list(U.data[0]), dr, dp)))
    # Round trips within the image, for focal lengths comparable to the image size
    W = V.sym_array("W", (n, 2), ("range", -0.45, 0.45))
    Z = V.sym_array("Z", (n, 2), ("choice", (-0.25, 0.0, 0.25)))

    def image_points(cam, W):
        a = V.obj_array((1, 2))
        for i in range(2):
            a[0, i] = T.add(T.mul(W.data[0, i], cam.f.data[i]),
                            T.add(T.div(cam.sz.data[i], 2), cam.c.data[i]))
        return V.Arr(a, (n, 2), "f")

    def world_points(cam, W, directions):
        R = cam.rotation()
        v = []
        for j in range(3):
            x = T.mul(d1, T.add(T.add(T.mul(W.data[0, 0], R[0][j]),
                                      T.mul(W.data[0, 1], R[1][j])), R[2][j]))
            v.append(x if directions else T.add(x, cam.xyz.data[j]))
        return S.rows(n, v)

    for nm, dist in (("ideal", "none"), ("k1 > 0", "k1"), ("k1 < 0", "k1neg"),
                     ("all small", "small"), ("k2", (1,)), ("k1, k2", (0, 1)),
                     ("k1, k3", (0, 2)), ("k1, k4", (0, 3)), ("k1, k5", (0, 4)),
                     ("k1, k6", (0, 5)), ("k4", (3,)), ("k1, p1", (0, 6)),
                     ("k1, p2", (0, 7)), ("p1", (6,)), ("p2", (7,)), ("p1, p2", (6, 7)),
                     ("k3, p1, p2", (2, 6, 7)), ("k4, p1", (3, 6)),
                     ("k5", (4,)), ("k6, p2", (5, 7))):
        for directions in (False, True):
            cam = S.Cam(dist)

            def there(l):
                c = cam.build(l)
                P = method(l, c, "uv_to_xyz", image_points(cam, W),
                           directions=directions, depth=d1)
                return method(l, c, "xyz_to_uv", P, directions=directions)

            def back(l):
                c = cam.build(l)
                uv = method(l, c, "xyz_to_uv", world_points(cam, W, directions),
                            directions=directions)
                return method(l, c, "uv_to_xyz", uv, directions=directions, depth=d1)
            C.check(ctx, "R2-round-trip", f"Camera.uv_to_xyz then xyz_to_uv[{nm},"
                    f"directions={directions}]", lift(ctx, there), image_points(cam, W))
            C.check(ctx, "R2-round-trip", f"Camera.xyz_to_uv then uv_to_xyz[{nm},"
                    f"directions={directions}]", lift(ctx, back),
                    world_points(cam, W, directions))

            def centre(l):
                c = cam.build(l)
                P = method(l, c, "uv_to_xyz", image_points(cam, Z), directions=directions)
                return method(l, c, "xyz_to_uv", P, directions=directions)
            if nm in ("ideal", "k1 > 0", "all small"):
                C.check(ctx, "R2-round-trip", "Camera.uv_to_xyz then xyz_to_uv[image "
                        f"axes and principal point, {nm},directions={directions}]",
                        lift(ctx, centre), image_points(cam, Z))
    # Spherical coordinates
    P = V.sym_array("P", (n, 3))
    for directions in (False, True):
        cam = S.Cam("none")
        out = lift(ctx, lambda l: method(l, cam.build(l), "xyz_to_spherical", P.copy(),
                                         directions=directions))
        q = list(P.data[0])
        if not directions:
            q = [T.sub(a, b) for a, b in zip(q, cam.xyz.data)]
        az, alt, r = spherical(q)
        C.check(ctx, "R3-spherical", f"Camera.xyz_to_spherical[directions={directions}]",
                out, S.rows(n, [az, alt] if directions else [az, alt, r]))
    cam = S.Cam("none")
    out = lift(ctx, lambda l: method(l, cam.build(l), "xyz_to_spherical", P.copy()))
    C.check(ctx, "R3-spherical", "Camera.xyz_to_spherical[default options]", out, S.rows(
        n, spherical([T.sub(a, b) for a, b in zip(P.data[0], cam.xyz.data)])))
    A = V.to_arr([T.sym("az", (n,), ("range", 0, 360)), T.sym("alt", (n,),
                                                            ("range", -89, 89)),
                  T.sym("dist", (n,), "pos")])
    az, alt = (T.mul(a, S.RAD) for a in A.data[:2])
    unit = [T.mul(T.sin(az), T.cos(alt)), T.mul(T.cos(az), T.cos(alt)), T.sin(alt)]
    for k in (2, 3):
        cam = S.Cam("none")
        want = list(unit)
        if k == 3:
            want = [T.add(T.mul(u, A.data[2]), o) for u, o in zip(unit, cam.xyz.data)]
        ang = S.rows(n, list(A.data[:k]))
        out = lift(ctx, lambda l: method(l, cam.build(l), "spherical_to_xyz", ang.copy()))
        C.check(ctx, "R3-spherical", f"Camera.spherical_to_xyz[{k} columns]", out,
                S.rows(n, want))

        def back(l):
            c = cam.build(l)
            return method(l, c, "xyz_to_spherical", method(
                l, c, "spherical_to_xyz", ang.copy()), directions=k == 2)
        out = lift(ctx, back)
        C.check(ctx, "R3-spherical", "Camera.spherical_to_xyz, Camera.xyz_to_spherical"
                f"[{k} columns]", out, ang)
    ctx.need("R1-inverse", 20)
    ctx.need("R2-round-trip", 6)
    ctx.assumptions += [
        "real arithmetic; numpy semantics as tabulated in glint/vg",
        "equality of value graphs is decided by structural value numbering and "
        "interpretation at random points of the declared domains",
        "whether the iterative removal of large distortion converges is not decided",
    ]
