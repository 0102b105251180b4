"""Specification of the camera model, written from the documentation."""
import math

from ..vg import term as T
from ..vg import value as V

RAD = math.pi / 180


def vec(name, n, dom="real"):
    a = V.to_arr([T.sym(f"{name}{i}", (), dom) for i in range(n)])
    a.kind = "f"
    return a


class Cam:
    """Symbolic camera parameters and a lifted Camera made from them."""

    def __init__(self, distortion="full", correction=False, prefix="",
                 sensor=False, sizes=None, ties=False, moved=True):
        p = prefix
        self.moved = moved
        self.sz = vec(p + "sz", 2, "posint") if sizes is None else V.to_arr(list(sizes))
        self.sz.kind = "i"
        self.f = vec(p + "f", 2, "pos")
        self.c = vec(p + "c", 2)
        self.k = vec(p + "k", 6, "sparse")
        self.p = vec(p + "p", 2, "sparse")
        if distortion == "none":
            self.k, self.p = V.full((6,), 0.0, "f"), V.full((2,), 0.0, "f")
        elif distortion in ("k1", "k1neg"):
            dom = ("range", 0.02, 0.4) if distortion == "k1" else ("range", -0.4, -0.02)
            self.k = V.to_arr([T.sym(p + distortion, (), dom), 0.0, 0.0, 0.0, 0.0, 0.0])
            self.p = V.full((2,), 0.0, "f")
        elif isinstance(distortion, tuple):
            # coefficients (k1..k6, p1, p2) at these positions, the others zero
            d = [T.sym(f"{p}d{i}", (), ("range", 0.002, 0.01)) if i in distortion else 0.0
                 for i in range(8)]
            self.k, self.p = V.to_arr(d[:6]), V.to_arr(d[6:])
            self.k.kind = self.p.kind = "f"
        elif distortion == "small":
            self.k = vec(p + "k", 6, ("range", -0.01, 0.01))
            self.p = vec(p + "p", 2, ("range", -0.01, 0.01))
        self.xyz = vec(p + "X", 3)
        self.vd = vec(p + "vd", 3, ("range", -180.0, 180.0))
        self.ss = vec(p + "ss", 2, "pos") if sensor else None
        self.correction = correction
        if ties:
            # small integers and no rotation: boundary cases are hit exactly
            self.sz = vec(p + "tsz", 2, ("choice", (2, 3, 4)))
            self.xyz = vec(p + "tX", 3, ("choice", (-1, 0, 1)))
            self.vd = V.full((3,), 0.0, "f")

    def kwargs(self):
        d = dict(imgsz=self.sz.copy(), f=self.f.copy(), c=self.c.copy(), k=self.k.copy(),
                 p=self.p.copy(), xyz=self.xyz.copy(), viewdir=self.vd.copy(),
                 correction=self.correction)
        if self.ss is not None:
            d["sensorsz"] = self.ss.copy()
        return d

    def build(self, l):
        """A camera with these parameters.

        Unless `moved` is false, it is constructed with others and then assigned these,
        so that nothing may be taken from the parameters at construction.
        """
        kw = self.kwargs()
        if not self.moved:
            return l.construct(l.prog.cls("Camera"), [], kw)
        first = dict(kw)
        for a, n, dom in (("xyz", 3, "real"), ("viewdir", 3, ("range", -180.0, 180.0)),
                          ("imgsz", 2, "posint"), ("f", 2, "pos"), ("c", 2, "real"),
                          ("k", 6, "real"), ("p", 2, "real")):
            first[a] = vec("first_" + a, n, dom)
        cam = l.construct(l.prog.cls("Camera"), [], first)
        for a in ("xyz", "viewdir", "imgsz", "f", "c", "k", "p"):
            l.setattr(cam, a, kw[a])
        return cam

    # -- documented model ------------------------------------------------------
    def rotation(self):
        return rotation(*self.vd.data)

    def vector(self):
        return V.to_arr(list(self.xyz.data) + list(self.vd.data) + list(self.sz.data)
                        + list(self.f.data) + list(self.c.data) + list(self.k.data)
                        + list(self.p.data))


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = T.add(s, T.mul(x, y))
    return s


def cross(a, b):
    return [T.sub(T.mul(a[1], b[2]), T.mul(a[2], b[1])),
            T.sub(T.mul(a[2], b[0]), T.mul(a[0], b[2])),
            T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))]


def lin(a, x, b, y):
    return [T.add(T.mul(a, p), T.mul(b, q)) for p, q in zip(x, y)]


def rotation(yaw, pitch, roll):
    """Rows: camera right, camera down, optical axis (unit vectors in world axes)."""
    y, p, r = (T.mul(a, RAD) for a in (yaw, pitch, roll))
    sy, cy, sp, cp = T.sin(y), T.cos(y), T.sin(p), T.cos(p)
    sr, cr = T.sin(r), T.cos(r)
    axis = [T.mul(sy, cp), T.mul(cy, cp), sp]
    right = [cy, T.app("neg", sy), 0]
    down = cross(axis, right)
    x = lin(cr, right, sr, down)
    yy = lin(cr, down, T.app("neg", sr), right)
    return [x, yy, axis]


def distort(x, y, k, p):
    """Normalized coordinates after radial and tangential distortion."""
    r2 = T.add(T.mul(x, x), T.mul(y, y))
    r4, r6 = T.mul(r2, r2), T.mul(T.mul(r2, r2), r2)
    num = T.add(1, dot(k[0:3], [r2, r4, r6]))
    den = T.add(1, dot(k[3:6], [r2, r4, r6]))
    dr = T.div(num, den)
    xy2 = T.mul(2, T.mul(x, y))
    dx = T.add(T.mul(xy2, p[0]), T.mul(p[1], T.add(r2, T.mul(2, T.mul(x, x)))))
    dy = T.add(T.mul(p[0], T.add(r2, T.mul(2, T.mul(y, y)))), T.mul(xy2, p[1]))
    return T.add(T.mul(x, dr), dx), T.add(T.mul(y, dr), dy)


def elevation_correction(d2, radius=6.3781e6, refraction=0.13):
    """Apparent elevation change at squared horizontal distance d2."""
    return T.div(T.mul(T.sub(refraction, 1), d2), T.mul(2, radius))


def camera_xyz(cam, q, directions, corr=None):
    """World point (or direction) in camera axes."""
    d = list(q)
    if not directions:
        d = [T.sub(a, b) for a, b in zip(q, cam.xyz.data)]
        if corr is not None:
            h2 = T.add(T.mul(d[0], d[0]), T.mul(d[1], d[1]))
            d[2] = T.add(d[2], elevation_correction(h2, **corr))
    R = cam.rotation()
    return [dot(row, d) for row in R]


def project(cam, q, directions=False, corr=None):
    """Image coordinates (u, v) and depth of a world point or direction."""
    X, Y, Z = camera_xyz(cam, q, directions, corr)
    ok = T.app("lt", 0, Z)
    x, y = distort(T.div(X, Z), T.div(Y, Z), cam.k.data, cam.p.data)
    out = []
    for i, a in enumerate((x, y)):
        u = T.add(T.mul(a, cam.f.data[i]), T.add(T.div(cam.sz.data[i], 2),
                                                  cam.c.data[i]))
        out.append(T.ite(ok, u, float("nan")))
    return out, Z


def unproject(cam, uv, directions=True, depth=1):
    """World ray or point of an image point, for a camera without distortion."""
    n = [T.div(T.sub(uv[i], T.add(T.div(cam.sz.data[i], 2), cam.c.data[i])),
               cam.f.data[i]) for i in range(2)]
    R = cam.rotation()
    out = []
    for j in range(3):
        v = T.add(T.add(T.mul(n[0], R[0][j]), T.mul(n[1], R[1][j])), R[2][j])
        v = T.mul(v, depth)
        if not directions:
            v = T.add(v, cam.xyz.data[j])
        out.append(v)
    return out


def rows(n, cols, kind="f"):
    """(n, len(cols)) array of row terms."""
    a = V.obj_array((1, len(cols)))
    for j, c in enumerate(cols):
        a[0, j] = c
    return V.Arr(a, (n, len(cols)), kind)


def col(n, c, kind="f"):
    a = V.obj_array((1,))
    a[0] = c
    return V.Arr(a, (n,), kind)
