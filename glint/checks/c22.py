"""C22: images simulated from an elevation model and from image points."""
import math

from ..spec import camera as S
from ..spec import grid as SG
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method

NAN = float("nan")


class View:
    """A camera with known numbers."""

    def __init__(self, imgsz, f, xyz, viewdir, c=(0, 0), k=(), p=(0, 0),
                 correction=False):
        num = lambda v, n: V.to_arr([float(x) for x in v] + [0.0] * (n - len(v)))  # noqa
        self.sz = V.to_arr(list(imgsz))
        self.f, self.c, self.k, self.p = num(f, 2), num(c, 2), num(k, 6), num(p, 2)
        self.xyz, self.vd = num(xyz, 3), num(viewdir, 3)
        self.correction = correction
        self.corr = {} if correction is True else correction or None

    def rotation(self):
        return S.rotation(*self.vd.data)

    def build(self, l):
        return l.construct(l.prog.cls("Camera"), [], dict(
            imgsz=self.sz.copy(), f=self.f.copy(), c=self.c.copy(), k=self.k.copy(),
            p=self.p.copy(), xyz=self.xyz.copy(), viewdir=self.vd.copy(),
            correction=self.correction))

    def pixel(self, q):
        """Row, column and depth of a world point, None if it is not in the image."""
        (u, v), depth = S.project(self, q, corr=self.corr)
        if not (T.is_num(u) and T.is_num(v)):
            raise ValueError("unknown pixel")
        nx, ny = self.sz.data
        if depth <= 0 or not (0 <= u <= nx and 0 <= v <= ny):
            return None
        near = [abs(t - round(t)) for t in (u, v)]
        if any(1e-12 < n < 1e-6 for n in near):
            raise ValueError("pixel too close to call")
        return min(int(math.floor(v)), ny - 1), min(int(math.floor(u)), nx - 1), depth


class Dem:
    """An elevation model with known elevations and two unknown layers."""

    def __init__(self, z, x, y):
        self.z = [[float(v) for v in row] for row in z]
        self.x, self.y = x, y
        self.shape = len(z), len(z[0])
        self.layers = V.sym_array("layer", self.shape + (2,))

    def center(self, i, j):
        (x0, x1), (y0, y1) = self.x, self.y
        return (x0 + (x1 - x0) * (j + 0.5) / self.shape[1],
                y0 + (y1 - y0) * (i + 0.5) / self.shape[0])

    def build(self, l):
        return l.construct(l.prog.cls("Raster"), [V.to_arr(self.z)],
                           dict(x=SG.farr(*self.x), y=SG.farr(*self.y)))


def simulate(view, dem, layers, depth=False, mask=None):
    """The image: mean of the cells in each pixel."""
    nx, ny = view.sz.data
    cells = {}
    for i in range(dem.shape[0]):
        for j in range(dem.shape[1]):
            z = dem.z[i][j]
            if z != z or (mask is not None and not mask[i][j]):
                continue
            hit = view.pixel(dem.center(i, j) + (z,))
            if hit is not None:
                values = [] if layers is None else [layers.data[i, j, b] for b in range(
                    layers.dims[2])]
                cells.setdefault(hit[:2], []).append(values + [hit[2]] * depth)
    n = (0 if layers is None else layers.dims[2]) + depth
    out = [[[NAN] * n for _ in range(nx)] for _ in range(ny)]
    for (r, c), many in cells.items():
        out[r][c] = [T.div(total(v), len(many)) for v in zip(*many)]
    return V.to_arr(out), cells


def total(xs):
    s = 0
    for x in xs:
        s = T.add(s, x)
    return s


NADIR = dict(xyz=(0.03, -0.02, 3.0), viewdir=(0, -90, 0))
WAVES = [[0.1 + 0.07 * ((3 * i + 5 * j) % 7) for j in range(5)] for i in range(4)]
HOLES = [[NAN if (i, j) in ((0, 0), (2, 3), (1, 4)) else v for j, v in enumerate(row)]
         for i, row in enumerate(WAVES)]


def scenes():
    """(name, camera, elevation model)"""
    views = [
        ("nadir", View((6, 5), (6.3, 6.1), **NADIR)),
        ("nadir, turned", View((6, 5), (6.3, 6.1), xyz=(0.03, -0.02, 3.0),
                               viewdir=(31, -88, 7))),
        ("oblique", View((7, 4), (9, 8), xyz=(0.2, -4.1, 2.3), viewdir=(-4, -24, 3),
                         c=(0.3, -0.2), k=(0.02, -0.01, 0.003, 0.01), p=(0.004, -0.003))),
        ("coarse", View((3, 2), (2.2, 1.7), **NADIR)),
        ("far", View((6, 5), (20000, 16000), xyz=(0.2, -4000.1, 900.3),
                     viewdir=(0.003, -12.7, 0), correction=True)),
        ("far, radius", View((6, 5), (20000, 16000), xyz=(0.2, -4000.1, 900.3),
                             viewdir=(0.003, -12.7, 0), correction={
                                 "radius": 2.5e6, "refraction": 0.2})),
        ("behind", View((6, 5), (6.3, 6.1), xyz=(0.03, -0.02, 3.0), viewdir=(0, 90, 0))),
        ("among", View((9, 5), (4, 5), xyz=(0.1, -0.3, 0.7), viewdir=(12, -15, 0))),
    ]
    for name, v in views:
        for sx, sy in ((1, -1), (-1, 1)):
            x, y = (-1.3, 1.4)[::sx], (-1.1, 1.2)[::sy]
            tag = f"{name},x{'+' if sx > 0 else '-'},y{'+' if sy > 0 else '-'}"
            yield tag, v, Dem(HOLES if name == "nadir" else WAVES, x, y)


def run(ctx):
    ctx.rule("R1-image", "each pixel of an image simulated from an elevation model is the "
             "mean of the values of the included cells that project into it, the depth "
             "along the optical axis in a layer of its own; the others are missing")
    ctx.rule("R2-tiles", "neither tiles nor processes change an image in which no pixel "
             "gathers cells of several tiles")
    ctx.rule("R3-scale", "tiles are rescaled to the number of cells per pixel asked for, "
             "within the limits, together with their mask and layers")
    ctx.rule("R4-points", "image points are gathered into pixels by their mean, those on "
             "the far edges in the last row or column")
    ctx.rule("R5-rejects", "layers and masks of another shape, and nothing to draw, are "
             "rejected")
    for tag, view, dem in scenes():
        images(ctx, tag, view, dem)
    edges(ctx)
    scales(ctx)
    points(ctx)
    rejects(ctx)
    ctx.need("R1-image", 10)
    ctx.need("R4-points", 2)
    ctx.assumptions += [
        "cameras, elevations and cell coordinates are listed numbers, layer values "
        "unknowns; scipy.ndimage.zoom of order 0 and 1 as documented; processes work on "
        "copies of the program state",
    ]


def draw(l, view, dem, layers=None, **kw):
    if layers is not None:
        kw["values"] = layers.copy()
    if "mask" in kw:
        kw["mask"] = V.to_arr(kw["mask"])
        kw["mask"].kind = "b"
    l.ext["scipy.ndimage.zoom"] = zoom
    return method(l, view.build(l), "project_dem", dem.build(l), **kw)


def take(layers, n):
    return V.Arr(layers.data[:, :, :n].copy(), layers.dims[:2] + (n,), layers.kind)


def images(ctx, tag, view, dem):
    ny, nx = dem.shape
    checker = [[(i + 2 * j) % 3 != 0 for j in range(nx)] for i in range(ny)]
    flat = V.Arr(dem.layers.data[:, :, 0].copy(), dem.shape, dem.layers.kind)
    one, two = take(dem.layers, 1), dem.layers
    cases = [("layer", flat, one, {}), ("two layers, depth", two, two, {
        "return_depth": True}), ("depth", None, None, {"return_depth": True}),
        ("mask", one, one, {"mask": checker}),
        ("mask, layer, depth", one, one, {"mask": checker, "return_depth": True}),
        ("empty mask", one, one, {"mask": [[False] * nx] * ny}),
        ("full mask", one, one, {"mask": [[True] * nx] * ny})]
    cells = None
    for nm, given, layers, kw in cases:
        want, hits = simulate(view, dem, layers, bool(kw.get("return_depth")),
                              kw.get("mask"))
        cells = hits if cells is None else cells
        C.check(ctx, "R1-image", f"Camera.project_dem[{tag},{nm}]", lift(
            ctx, lambda l: draw(l, view, dem, given, **kw)), want)
    none = V.Arr(one.data * 0, one.dims, one.kind)
    for nm, kw in (("", {}), (", depth", {"return_depth": True})):
        want, _ = simulate(view, dem, none, "return_depth" in kw)
        C.check(ctx, "R1-image", f"Camera.project_dem[{tag},layer of zeros{nm}]", lift(
            ctx, lambda l: draw(l, view, dem, none, **kw)), want)
    alone = all(len(v) == 1 for v in cells.values())
    if not alone or not cells:
        return
    for size, overlap, parallel in (((2, 2), (0, 0), False), ((3, 2), (1, 1), False),
                                    ((2, 3), (0, 1), 2), ((1, 1), (0, 0), False),
                                    ((100, 2), (1, 1), True)):
        for nm, layers, kw in (("layer, depth", one, {"return_depth": True}),
                               ("mask", two, {"mask": checker})):
            want, _ = simulate(view, dem, layers, "return_depth" in kw, kw.get("mask"))
            C.check(ctx, "R2-tiles", f"Camera.project_dem[{tag},{nm},tiles {size},overlap "
                    f"{overlap},parallel {parallel}]", lift(ctx, lambda l: draw(
                        l, view, dem, layers, tile_size=size, tile_overlap=overlap,
                        parallel=parallel, **kw)), want)


def edges(ctx):
    """Cells on the edges of the frame."""
    view = View((3, 3), (3, 3), xyz=(0.0, 0.0, 3.0), viewdir=(0, -90, 0))
    dem = Dem([[0.0] * 4] * 4, (-2.0, 2.0), (2.0, -2.0))
    # columns at u = 0, 1, 2, 3
    for nm, kw in (("layer", {}), ("depth", {"return_depth": True})):
        layers = take(dem.layers, 1)
        want, _ = simulate(view, dem, layers, bool(kw))
        C.check(ctx, "R1-image", f"Camera.project_dem[edges,{nm}]", lift(
            ctx, lambda l: draw(l, view, dem, layers, **kw)), want)


def zoom(l, args, kw):
    """scipy.ndimage.zoom of order 0 and 1."""
    names = ("input", "zoom", "output", "order")
    d = dict(zip(names, args))
    d.update(kw)
    a, z, order = V.to_arr(l.resolve(d["input"])), d["zoom"], d.get("order", 3)
    if set(d) - {"input", "zoom", "order"} or order not in (0, 1) or a.ndim != 2:
        raise V.Unsupported("zoom of this kind")
    z = [float(v) for v in V.to_arr(l.resolve(z)).data.flat]
    z = z * 2 if len(z) == 1 else z
    return resample(a, tuple(int(round(n * k)) for n, k in zip(a.dims, z)), order)


def resample(a, shape, order):
    out = V.obj_array(shape)
    pos = []
    for n, m in zip(a.dims, shape):
        step = (n - 1) / (m - 1) if m > 1 else 1.0
        pos.append([i * step for i in range(m)])
    for i, r in enumerate(pos[0]):
        for j, c in enumerate(pos[1]):
            if order == 0:
                out[i, j] = a.data[math.floor(r + 0.5), math.floor(c + 0.5)]
                continue
            v = 0
            for ri, rw in weights(r, a.dims[0]):
                for ci, cw in weights(c, a.dims[1]):
                    v = T.add(v, T.mul(a.data[ri, ci], rw * cw))
            out[i, j] = v
    return V.Arr(out, shape, a.kind)


def weights(t, n):
    i = min(int(math.floor(t + 1e-12)), n - 1)
    w = t - i
    if w < 1e-12 or i + 1 >= n:
        return [(i, 1.0)]
    return [(i, 1.0 - w), (i + 1, w)]


def scales(ctx):
    # 1.6 pixels per cell at the mean elevation
    view = View((8, 7), (7.0, 5.8), xyz=(0.06, -0.04, 8.5), viewdir=(0, -90, 0))
    z = [[0.5 + 0.1 * ((i + j) % 2 * 2 - 1) for j in range(4)] for i in range(4)]
    x, y = (-5.06, 4.94), (2.91, -3.09)
    checker = [[(i, j) not in ((0, 3), (2, 1)) for j in range(4)] for i in range(4)]
    for nm, kw, factor in (
            ("default", {}, 1.0), ("twice", {"scale": 2, "scale_limits": (1, 4)}, 3.2),
            ("once", {"scale_limits": (0.5, 4)}, 1.6),
            ("once, reversed", {"scale_limits": (4, 0.5)}, 1.6),
            ("at most", {"scale": 5, "scale_limits": (1, 2)}, 2.0),
            ("at most, reversed", {"scale": 5, "scale_limits": (2, 1)}, 2.0),
            ("at least", {"scale": 0.1, "scale_limits": (0.5, 2)}, 0.5)):
        for what, layers, depth, mask in (("two layers", 2, False, None),
                                          ("layer, depth, mask", 1, True, checker),
                                          ("depth", 0, True, None)):
            dem = Dem(z, x, y)
            given = take(dem.layers, layers) if layers else None
            m = round(4 * factor)
            fine = Dem([[0.0] * m] * m, x, y)
            fine.z = resample(V.to_arr(z), (m, m), 1).data.tolist()
            if layers:
                cut = [resample(V.Arr(given.data[:, :, b].copy(), (4, 4), "f"), (m, m), 1)
                       for b in range(layers)]
                fine.layers = V.to_arr([[[c.data[i, j] for c in cut] for j in range(m)]
                                        for i in range(m)])
            big = None if mask is None else resample(V.to_arr(mask), (m, m), 0).data
            want, _ = simulate(view, fine, fine.layers if layers else None, depth, big)
            opts = dict(kw, return_depth=depth)
            if mask is not None:
                opts["mask"] = mask
            C.check(ctx, "R3-scale", f"Camera.project_dem[{nm},{what}]", lift(
                ctx, lambda l: draw(l, view, dem, given, **opts)), want)


def points(ctx):
    r = "R4-points"
    view = View((3, 2), (1, 1), **NADIR)
    uv = [(0.0, 0.0), (3.0, 2.0), (2.5, 1.5), (3.0, 0.4), (1.2, 2.0), (1.7, 1.1),
          (-0.1, 1.0), (3.01, 1.0), (1.0, 2.01), (0.99, 0.99), (NAN, NAN), (1.0, 0.0)]
    at = [(0, 0), (1, 2), (1, 2), (0, 2), (1, 1), (1, 1), None, None, None, (0, 0), None,
          (0, 1)]
    for n in (1, 2):
        val = V.sym_array("val", (len(uv), n))
        cells = {}
        for i, k in enumerate(at):
            if k is not None:
                cells.setdefault(k, []).append(i)
        want = [[[T.div(total([val.data[i, b] for i in cells[r, c]]), len(cells[r, c]))
                  if (r, c) in cells else NAN for b in range(n)] for c in range(3)]
                for r in range(2)]
        given = val
        if n == 1:
            want = [[v[0] for v in row] for row in want]
            given = V.Arr(val.data[:, 0].copy(), (len(uv),), val.kind)
        C.check(ctx, r, f"Camera.rasterize[{n}]", lift(ctx, lambda l: method(
            l, view.build(l), "rasterize", V.to_arr(uv), given.copy())), V.to_arr(want))


def rejects(ctx):
    r = "R5-rejects"
    view = View((6, 5), (6.3, 6.1), **NADIR)
    dem = Dem(WAVES, (-1.3, 1.4), (1.2, -1.1))
    low = V.sym_array("low", (3, 5))
    wide = V.sym_array("wide", (4, 6, 2))
    one = take(dem.layers, 1)
    for nm, layers, kw in (("nothing", None, {}), ("fewer rows", low, {}),
                           ("more columns", wide, {"return_depth": True}),
                           ("mask of fewer rows", one, {"mask": [[True] * 5] * 3}),
                           ("mask of more columns", one, {"mask": [[True] * 6] * 4})):
        C.check_raises(ctx, r, f"Camera.project_dem[{nm}]", lift(
            ctx, lambda l: draw(l, view, dem, layers, **kw)))
