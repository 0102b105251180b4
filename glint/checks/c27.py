"""C27: images projected into other cameras."""
import math

from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method
from .c22 import View

NAN = float("nan")
WHEN = T.sym("when", (), "datetime")


def inverse(view, uv):
    """Direction that a pixel of a camera sees, as numbers."""
    q = [(uv[j] - (view.sz.data[j] / 2 + view.c.data[j])) / view.f.data[j]
         for j in range(2)]
    x, y = q
    for _ in range(200):        # a contraction for weak distortion
        dx, dy = S.distort(x, y, view.k.data, view.p.data)
        x, y = x + q[0] - dx, y + q[1] - dy
    r = view.rotation()
    return [r[0][j] * x + r[1][j] * y + r[2][j] for j in range(3)]


def sample(view, array, d, how):
    """Values of the bands of an image where its camera sees a direction."""
    (u, v), depth = S.project(view, d, directions=True)
    ny, nx, nb = array.shape
    if depth <= 0:
        return [NAN] * nb
    for x, n in ((u, nx), (v, ny)):
        for e in (0.5, n - 0.5):
            if 1e-8 < abs(x - e) < 1e-4:
                raise ValueError("point too close to call")
    if not (0.5 - 1e-8 <= u <= nx - 0.5 + 1e-8 and 0.5 - 1e-8 <= v <= ny - 0.5 + 1e-8):
        return [NAN] * nb
    x, y = min(max(u - 0.5, 0), nx - 1), min(max(v - 0.5, 0), ny - 1)
    if how == "nearest":
        for t in (x, y):
            if abs(t % 1 - 0.5) < 1e-6:
                raise ValueError("pixel too close to call")
        return [array[int(math.floor(y + 0.5)), int(math.floor(x + 0.5)), b]
                for b in range(nb)]
    j, i = min(int(x), nx - 2), min(int(y), ny - 2)
    s, t = x - j, y - i
    out = []
    for b in range(nb):
        w = 0.0
        for di, wi in ((0, 1 - t), (1, t)):
            for dj, wj in ((0, 1 - s), (1, s)):
                w = T.add(w, T.mul(wi * wj, array[i + di, j + dj, b]))
        out.append(w)
    return out


AT = (1.5, -2.5, 0.5)


def scenes():
    """(name, camera of the image, target camera)"""
    def view(imgsz=(6, 5), f=(7.3, 7.1), viewdir=(31, -12, 4), **kw):
        return View(imgsz, f, AT, viewdir, **kw)
    yield "same", view(), view()
    yield "same,distorted", view(k=(0.05, -0.02), c=(0.3, -0.2)), \
        view(k=(0.05, -0.02), c=(0.3, -0.2))
    yield "turned", view(), view(viewdir=(41, -5, 9))
    yield "tilted", view(), view(viewdir=(31, -12, 67), c=(0.21, -0.13))
    yield "wider", view(), view(imgsz=(9, 4), f=(5.2, 4.9), c=(0.17, 0.11))
    yield "narrower", view(imgsz=(8, 7)), view(imgsz=(3, 5), f=(17, 19),
                                               viewdir=(28, -15, -20))
    yield "same width", view(), view(imgsz=(6, 3), viewdir=(35, -9, 1))
    yield "same height", view(imgsz=(8, 5)), view(imgsz=(4, 5), viewdir=(35, -9, 1))
    yield "distorted", view(k=(0.06, -0.03, 0.01, 0.02), p=(0.01, -0.008), c=(0.4, 0.3)), \
        view(viewdir=(35, -9, 1))
    yield "into distorted", view(), view(k=(0.06, -0.03), p=(0.004, 0.003), c=(-0.3, 0.1),
                                         viewdir=(35, -9, 1))
    yield "corrected", view(correction=True), view(viewdir=(35, -9, 1), correction=True)
    yield "behind", view(), view(viewdir=(211, 12, 4))


def image(l, view, array):
    img = l.construct(l.prog.cls("Image"), ["a.jpg"], dict(
        cam=view.build(l), datetime=WHEN))
    l.setattr(img, "array", array.copy())
    return img


def run(ctx):
    ctx.rule("R1-projected", "each pixel of a projected image is interpolated at the point "
             "of the image that sees the same direction, and missing if there is none")
    ctx.rule("R2-rejects", "cameras at another position are rejected")
    r = "R1-projected"
    for name, src, dst in scenes():
        for bands in (3,) if name != "turned" else (1, 0, 3):
            for how in ("linear", "nearest", None):
                if how is None and name != "turned":
                    continue
                nx, ny = src.sz.data
                a = V.sym_array("a", (ny, nx, bands or 1))
                full = V.Arr(a.data[:, :, 0], (ny, nx), "f") if not bands else a
                w, h = dst.sz.data
                want = [[sample(src, a.data, inverse(dst, (x + 0.5, y + 0.5)),
                                how or "linear") for x in range(w)] for y in range(h)]

                def body(l):
                    img, cam = image(l, src, full), dst.build(l)
                    out = method(l, img, "project", cam, **({} if how is None else {
                        "method": how}))
                    return out, l.getattr(img, "array"), l.getattr(cam, "viewdir")
                C.check(ctx, r, f"Image.project[{name},{bands} bands,{how}]",
                        lift(ctx, body), (V.to_arr(want), full, dst.vd), tol=1e-6)
    for k in range(3):
        at = list(AT)
        at[k] += 0.25

        def other(l):
            a = V.sym_array("a", (5, 6))
            src = View((6, 5), (7.3, 7.1), AT, (31, -12, 4))
            return method(l, image(l, src, a), "project", View(
                (6, 5), (7.3, 7.1), at, (31, -12, 4)).build(l))
        C.check_raises(ctx, "R2-rejects", f"Image.project[position {k}]",
                       lift(ctx, other), "ValueError")
    ctx.need(r, 3)
    ctx.need("R2-rejects", 1)
