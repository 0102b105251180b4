"""C25: windows of raster and image files."""
import itertools
import math

from ..spec import camera as S
from ..spec import grid as SG
from ..spec import rasterfile as F
from ..vg import compare as C
from ..vg import term as T
from ..vg import textmod
from ..vg import value as V
from ..vg import world
from .c06 import lift, method

NAN = float("nan")
WHEN = T.sym("when")


def cells(ny, nx, prefix="v", kind="f"):
    d = V.obj_array((ny, nx))
    for i in range(ny):
        for j in range(nx):
            d[i, j] = T.sym(f"{prefix}{i}_{j}", (), ("range", 1.0, 90.0) if kind == "f"
                            else "posint")
    return V.Arr(d, d.shape, kind)


class Source:
    """A raster file: cell (i, j) spans x0 + dx * [j, j + 1], y0 + dy * [i, i + 1]."""

    def __init__(self, nx, ny, x0, dx, y0, dy, code=7, missing=None, at=(), crs="WKT"):
        self.nx, self.ny, self.x0, self.dx, self.y0, self.dy = nx, ny, x0, dx, y0, dy
        self.kind = F.TYPES[code][1]
        self.code, self.missing, self.crs = code, missing, crs
        self.bands = [cells(ny, nx, p, self.kind) for p in "ab"]
        for i, j, v in at:
            for b in self.bands:
                b.data[i, j] = v

    def data(self):
        return F.Data([b.copy() for b in self.bands], (
            self.x0, self.dx, 0, self.y0, 0, self.dy), self.crs,
            [self.missing] * 2, self.code)

    def crop(self, xlim, ylim):
        """First and last column and row that overlap the limits."""
        out = []
        for lim, o, d, n in ((xlim, self.x0, self.dx, self.nx),
                             (ylim, self.y0, self.dy, self.ny)):
            if lim is None:
                out.append((0, n - 1))
                continue
            lo, hi = min(lim), max(lim)
            on = [k for k in range(n) if max(min(o + d * k, o + d * (k + 1)), lo) <
                  min(max(o + d * k, o + d * (k + 1)), hi)]
            out.append((on[0], on[-1]))
        return out

    def opened(self, l, fs, d=None, xlim=None, ylim=None, band=1, nan=None):
        """Limits, size and values of the raster."""
        (c0, c1), (r0, r1) = self.crop(xlim, ylim)
        w, h = c1 - c0 + 1, r1 - r0 + 1
        bw, bh = (w, h) if d is None else (
            math.ceil(w * abs(self.dx) / d), math.ceil(h * abs(self.dy) / d))
        a = fs.window(self.bands[band - 1], self.kind, c0, r0, w, h, bw, bh)
        if nan is None and self.kind == "f":
            nan = self.missing
        if nan is not None:
            a = V.Arr(a.data.copy(), a.dims, "f")
            for i, j in itertools.product(range(bh), range(bw)):
                a.data[i, j] = T.ite(T.app("eq", a.data[i, j], nan), NAN, a.data[i, j])
        return ((self.x0 + self.dx * c0, self.x0 + self.dx * (c1 + 1)),
                (self.y0 + self.dy * r0, self.y0 + self.dy * (r1 + 1)), (bw, bh), a)


SOURCES = {
    "north up": Source(5, 4, 100, 10, 240, -10, missing=-9999, at=((1, 1, -9999),
                                                                  (3, 4, -9999))),
    "south up": Source(5, 4, -3.5, 0.5, 2, 0.25, crs=""),
    "single precision": Source(4, 3, 0, 2, 0, -2, code=6, missing=0, at=((0, 0, 0),)),
    "west": Source(4, 5, 20, -2, 0, 3),
    "integers": Source(4, 3, 0, 2, 6, -2, code=3, missing=7, at=((0, 1, 7),)),
}
#: source, xlim, ylim
CROPS = (
    ("north up", None, None), ("north up", (110, 140), (230, 210)),
    ("north up", (140, 110), (210, 230)), ("north up", (113, 127), None),
    ("north up", None, (201, 217)), ("north up", (50, 121), (190, 220)),
    ("north up", (129, 400), (230, 500)), ("north up", (120, 130), (210, 220)),
    ("north up", (122, 127), (212, 217)), ("south up", None, None),
    ("south up", (-3, -2), (2.25, 2.75)), ("south up", (-2.9, -2.6), (2.3, 2.6)),
    ("south up", (-9, -3), (2.75, 9)), ("single precision", (2, 6), None),
    ("west", None, None), ("west", (15, 17), (2, 7)), ("west", (14, 18), (3, 9)),
    ("integers", None, None), ("integers", (1, 5), (1, 3)),
)


def run(ctx):
    ctx.rule("R1-open", "a raster opened from a file has the cells that overlap the "
             "limits asked for, their outer bounds, the cell size asked for, missing "
             "values replaced, and the reference system of the file")
    ctx.rule("R2-box", "a region read from a raster is the region of its full array, "
             "cached or not, whatever was read before; others are rejected")
    ctx.rule("R3-grid", "a grid read from a file is the grid of the raster opened from it")
    ctx.rule("R4-image", "an image is read at the size of its camera; a region read is "
             "the region of the full image, cached or not, whatever was read before")
    ctx.rule("R5-write", "a file written has the values, position, reference system and "
             "missing value of the raster, and is read back as the same raster")
    ctx.rule("R6-reject", "unknown drivers, extensions, types and reference systems are "
             "rejected")
    opened(ctx)
    boxes(ctx)
    images(ctx)
    written(ctx)
    ctx.need("R1-open", 5)
    ctx.need("R2-box", 5)
    ctx.need("R4-image", 5)
    ctx.need("R5-write", 3)
    ctx.assumptions += ["GDAL reads the nearest cell of a window for each cell of the "
                        "buffer; writes what it is given"]


def state(l, r, array=True):
    return (tuple(l.getattr(r, a) for a in ("xlim", "ylim", "size", "crs"))
            + ((l.getattr(r, "array"),) if array else ()))


def begin(l, files):
    textmod.Text(l, {}, world.Files(l))
    return F.Gdal(l, files)


def wanted(ctx, src, **kw):
    fs = F.Gdal.__new__(F.Gdal)
    fs.l = Plain()
    return src.opened(None, fs, **kw)


class Plain:
    """Stands for a lifter where values are plain."""
    def resolve(self, v):
        return v


def opened(ctx):
    for name, xlim, ylim in CROPS:
        src = SOURCES[name]
        for kw in ({}, {"d": abs(src.dx)}, {"d": abs(src.dx) * 2}, {"d": abs(src.dx) / 2},
                   {"d": abs(src.dx) * 1.5}, {"band": 2}, {"nan": 7}):
            if kw and kw != {"d": abs(src.dx) * 2} and (xlim, ylim) not in (
                    (None, None), ((110, 140), (230, 210))):
                continue
            tag = f"{name},x={xlim},y={ylim}" + "".join(
                f",{k}={v}" for k, v in kw.items())
            given = dict(kw, **({"xlim": xlim} if xlim else {}),
                         **({"ylim": ylim} if ylim else {}))
            x, y, size, a = wanted(ctx, src, **given)
            want = (SG.farr(*x), SG.farr(*y), SG.farr(*size, kind="i"), src.crs or None)

            def raster(l):
                begin(l, {"a.tif": src.data()})
                r = l.resolve(l.call(l.getattr(V.ClassRef(l.prog.cls("Raster")), "open"),
                                     ["a.tif"], dict(given, datetime=WHEN)))
                before = tuple(l.getattr(r, k) for k in ("size", "d"))
                return state(l, r) + (l.getattr(r, "datetime"), before)
            ctx_d = SG.farr(*[T.div(T.sub(p[1], p[0]), n) for p, n in zip((x, y), size)])
            C.check(ctx, "R1-open", f"Raster.open[{tag}]", lift(ctx, raster),
                    want + (a, WHEN, (want[2], ctx_d)))
            if set(kw) <= {"d"}:
                def grid(l):
                    begin(l, {"a.tif": src.data()})
                    r = l.call(l.getattr(V.ClassRef(l.prog.cls("Grid")), "read"),
                               ["a.tif"], dict(given))
                    return state(l, l.resolve(r), False)
                C.check(ctx, "R3-grid", f"Grid.read[{tag}]", lift(ctx, grid), want)


def region(a, box):
    x0, y0, x1, y1 = box
    return F.pick(a, range(y0, y1), range(x0, x1))


#: box (None: all), cache
HISTORIES = {
    "uncached": [((1, 1, 3, 3), False)],
    "cached": [((1, 1, 3, 3), True), (None, True)],
    "all, then cached": [(None, True), ((0, 1, 2, 3), True), ((1, 0, 3, 2), True)],
    "all, then uncached": [(None, True), ((0, 1, 2, 3), False)],
    "cached, then others": [((1, 1, 2, 2), True), ((0, 0, 3, 3), True),
                            ((1, 0, 3, 3), False)],
    "uncached, then all": [((1, 1, 2, 3), False), (None, False), ((2, 1, 3, 3), False),
                           (None, True)],
    "corners": [((0, 0, 1, 1), False), ((2, 2, 3, 3), False), ((0, 0, 3, 3), False)],
}


def boxes(ctx):
    full = SOURCES["north up"]
    for (tag, kw), (name, steps) in itertools.product({
            "file": {}, "crop": {"xlim": (110, 140), "ylim": (240, 210)},
            "coarser": {"d": 12.5, "xlim": (100, 140), "ylim": (240, 200)},
            "half": {"d": 20},
            "finer": {"d": 5, "xlim": (120, 140), "ylim": (230, 210)},
            "missing": {"nan": 7.5}}.items(), HISTORIES.items()):
        if tag == "half":
            steps = [(b and (b[0], b[1] - (b[1] > 1), b[2], min(b[3], 2)), c)
                     for b, c in steps]
            steps = [(b, c) for b, c in steps if b is None or b[1] < b[3]]
        a = wanted(ctx, full, **kw)[-1]

        def body(l):
            begin(l, {"a.tif": full.data()})
            r = l.resolve(l.call(l.getattr(V.ClassRef(l.prog.cls("Raster")), "open"),
                                 ["a.tif"], dict(kw)))
            out = []
            for box, cache in steps:
                out.append(V.to_arr(l.resolve(method(
                    l, r, "read", **({} if box is None else {"box": list(box)}),
                    cache=cache))).copy())
            return tuple(out) + (l.getattr(r, "array"), l.getattr(r, "size"))
        want = tuple(a if b is None else region(a, b) for b, _ in steps) + (
            a, SG.farr(*a.dims[::-1], kind="i"))
        C.check(ctx, "R2-box", f"Raster.read[{tag},{name}]", lift(ctx, body), want)

    def cleared(l):
        fs = begin(l, {"a.tif": full.data()})
        r = l.resolve(l.call(l.getattr(V.ClassRef(l.prog.cls("Raster")), "open"),
                             ["a.tif"], {}))
        method(l, r, "read")
        fs.files["a.tif"] = other.data()
        first = method(l, r, "read", box=[0, 0, 2, 2])
        l.setattr(r, "array", None)
        return first, method(l, r, "read", box=[0, 0, 2, 2])
    other = Source(5, 4, 100, 10, 240, -10)
    other.bands = [cells(4, 5, "o")]
    C.check(ctx, "R2-box", "Raster.read[cache cleared]", lift(ctx, cleared), (
        region(wanted(ctx, full)[-1], (0, 0, 2, 2)), region(other.bands[0], (0, 0, 2, 2))))
    for tag, box in (("beyond right", (3, 0, 6, 2)), ("beyond bottom", (0, 2, 2, 5)),
                     ("negative", (-1, 0, 2, 2)), ("above", (0, -2, 2, 2)),
                     ("not whole", (0.5, 0, 2, 2))):
        for cache, first in ((True, False), (False, False), (True, True)):
            def body(l):
                begin(l, {"a.tif": full.data()})
                r = l.resolve(l.call(l.getattr(V.ClassRef(l.prog.cls("Raster")), "open"),
                                     ["a.tif"], {}))
                if first:
                    method(l, r, "read")
                return method(l, r, "read", box=list(box), cache=cache)
            C.check_raises(ctx, "R2-box", f"Raster.read[{tag},cache={cache},"
                           f"read before={first}]", lift(ctx, body))


# -- images -----------------------------------------------------------------------------
def images(ctx):
    nx, ny = 8, 6
    half, box = (4, 3), (1, 1, 3, 3)
    box2 = (2, 0, 7, 4)
    # steps: ("read", box, cache) | ("size", (nx, ny))
    hist = {
        "all": [("read", None, True), ("read", None, True)],
        "uncached": [("read", None, False), ("read", box2, False)],
        "regions": [("read", box2, True), ("read", box, True), ("read", None, True)],
        "regions uncached": [("read", box2, False), ("read", box, False)],
        "cached, then uncached": [("read", None, True), ("read", box, False)],
        "smaller": [("size", half), ("read", None, True), ("read", box, True)],
        "smaller, uncached": [("size", half), ("read", box, False),
                              ("read", None, False)],
        "smaller, cached region": [("size", half), ("read", box, True)],
        "larger, uncached": [("size", (16, 12)), ("read", (3, 2, 9, 8), False)],
        "smaller after reading": [("read", None, True), ("size", half),
                                  ("read", box, True), ("read", None, True)],
        "smaller after reading, uncached": [
            ("read", None, True), ("size", half), ("read", box, False)],
        "smaller and back": [("size", half), ("read", None, True), ("size", (nx, ny)),
                             ("read", box2, True), ("read", None, True)],
        "smaller and back, uncached": [
            ("size", half), ("read", None, True), ("size", (nx, ny)),
            ("read", box2, False), ("read", None, False)],
        "other sizes in turn": [
            ("size", half), ("read", None, True), ("size", (2, 2)),
            ("read", (0, 0, 1, 2), False), ("size", half), ("read", box, False),
            ("read", box, True)],
        "other shape": [("size", (5, 6)), ("read", (1, 2, 4, 5), False),
                        ("read", (1, 2, 4, 5), True)],
        "other height": [("size", (nx, 3)), ("read", None, True), ("read", box, True)],
        "other width": [("size", (5, ny)), ("read", None, True), ("read", box, True)],
        "other height after reading": [("read", None, True), ("size", (nx, 3)),
                                       ("read", None, True), ("read", box, True)],
        "other width after reading": [("read", None, True), ("size", (5, ny)),
                                      ("read", None, True), ("read", box, True)],
        "sides exchanged after reading": [("read", None, True), ("size", (ny, nx)),
                                          ("read", None, True), ("read", box, True)],
    }
    fs = F.Gdal.__new__(F.Gdal)
    fs.l = Plain()
    for bands, (name, steps) in itertools.product((1, 2, 3, 4), hist.items()):
        planes = [cells(ny, nx, f"p{b}_", "i") for b in range(bands)]

        def full(size):
            parts = [fs.window(p, "i", 0, 0, nx, ny, *size) for p in planes]
            return parts[0] if bands == 1 else V.stack(parts, 2)

        def cut(a, b):
            if b is None:
                return a
            d = a.data[b[1]:b[3], b[0]:b[2]]
            return V.Arr(d, d.shape, a.kind)
        want, size, held = [], (nx, ny), None
        for s in steps:
            if s[0] == "size":
                size = s[1]
                continue
            if s[2]:
                held = size
            want.append((cut(full(size), s[1]), None if held is None else full(held)))

        def body(l):
            begin(l, {"i.tif": F.Data([p.copy() for p in planes], code=1)})
            im = image(l, S.Cam("full", sizes=(nx, ny), moved=False))
            out = []
            for s in steps:
                if s[0] == "size":
                    method(l, l.getattr(im, "cam"), "resize", s[1], force=True)
                else:
                    kw = {} if s[1] is None else {"box": s[1]}
                    a = V.to_arr(l.resolve(method(l, im, "read", cache=s[2], **kw))).copy()
                    held = l.resolve(l.getattr(im, "array"))
                    out.append((a, held.copy() if isinstance(held, V.Arr) else held))
            return tuple(out)
        C.check(ctx, "R4-image", f"Image.read[{bands} bands,{name}]", lift(ctx, body),
                tuple(want))

    def rewritten(l):
        d = begin(l, {"i.tif": F.Data([p.copy() for p in planes], code=1)})
        im = image(l, S.Cam("full", sizes=(nx, ny), moved=False))
        method(l, im, "write", "new.tif")
        method(l, im, "write", "given.jpg", planes[0].copy())
        method(l, im, "write", "other.jpg", driver="GTiff")
        a, b, c = (d.files[k] for k in ("new.tif", "given.jpg", "other.jpg"))
        return (tuple(a.bands), a.driver, tuple(b.bands), b.driver, tuple(c.bands),
                c.driver)
    C.check(ctx, "R5-write", "Image.write", lift(ctx, rewritten), (
        tuple(planes), "GTiff", (planes[0],), "JPEG", tuple(planes), "GTiff"))


def image(l, cam):
    return l.construct(l.prog.cls("Image"), ["i.tif"], dict(
        cam=cam.build(l), datetime=WHEN))


# -- writing ------------------------------------------------------------------------------
def contents(ds):
    return (tuple(ds.bands), tuple(ds.transform), ds.crs, tuple(ds.missing), ds.driver,
            F.TYPES[ds.code][1])


def written(ctx):
    fn = ctx.prog.func("helpers", "write_raster")
    flat, deep = cells(2, 3), V.stack([cells(2, 3, p) for p in "cde"], 2)
    holes = cells(2, 3, "h")
    holes.data[0, 1] = holes.data[1, 2] = NAN
    maybe = cells(2, 3, "m")
    maybe.data[1, 0] = T.sym("gap", (), ("choice", (1.5, NAN)))
    counts = cells(2, 3, "n", "i")
    plain = (0, 1, 0, 0, 0, 1)
    where = (4.5, 2, 0, 9, 0, -2)

    def filled(a, v):
        d = V.obj_array(a.data.shape)
        for k in itertools.product(*map(range, a.data.shape)):
            x = a.data[k]
            d[k] = (v if T.is_num(x) and x != x else x) if T.is_num(x) else T.ite(
                T.app("isnan", x), v, x)
        return V.Arr(d, a.dims, a.kind)

    def layers(a):
        return (a,) if a.ndim == 2 else tuple(
            V.Arr(a.data[:, :, i].copy(), a.dims[:2], a.kind) for i in range(a.dims[2]))
    cases = {
        "flat": (flat, "x.tif", {}, (plain, "", None, "GTiff")),
        "layers": (deep, "x.TIFF", {}, (plain, "", None, "GTiff")),
        "integers": (counts, "d.e/x.nc", {}, (plain, "", None, "Both")),
        "position": (deep, "x.tif", {"transform": where}, (where, "", None, "GTiff")),
        "copied": (deep, "x.jpeg", {"transform": where, "crs": 32606, "nan": -1},
                   (where, "epsg<32606>", -1, "JPEG")),
        "driver": (flat, "x", {"driver": "NoExt"}, (plain, "", None, "NoExt")),
        "driver, not the extension": (flat, "x.jpg", {"driver": "GTiff"},
                                      (plain, "", None, "GTiff")),
        "code": (flat, "x.tif", {"crs": 4326}, (plain, "epsg<4326>", None, "GTiff")),
        "proj4": (flat, "x.tif", {"crs": "+proj=utm"}, (plain, "proj4<+proj=utm>", None,
                                                       "GTiff")),
        "text": (flat, "x.tif", {"crs": 'PROJCS["a+b"]'}, (plain, 'PROJCS["a+b"]', None,
                                                         "GTiff")),
        "missing": (holes, "x.tif", {"nan": -9999}, (plain, "", -9999, "GTiff")),
        "missing zero": (holes, "x.tif", {"nan": 0}, (plain, "", 0, "GTiff")),
        "maybe missing": (maybe, "x.tif", {"nan": -9999}, (plain, "", -9999, "GTiff")),
        "missing, kept": (holes, "x.tif", {}, (plain, "", None, "GTiff")),
        "missing, layers": (V.stack([holes, flat], 2), "x.jpg", {"nan": -1},
                            (plain, "", -1, "JPEG")),
        "missing, integers": (counts, "x.tif", {"nan": 0}, (plain, "", 0, "GTiff")),
    }
    for name, (a, path, kw, (tf, crs, nan, driver)) in cases.items():
        def body(l):
            fs = begin(l, {})
            given = a.copy()
            l.call_func(fn, [given, path], dict(kw))
            return contents(fs.files[path]), tuple(sorted(fs.files)), given
        bands = layers(a if nan is None else filled(a, nan))
        C.check(ctx, "R5-write", f"helpers.write_raster[{name}]", lift(ctx, body), (
            (bands, tf, crs, (nan,) * len(bands), driver, a.kind), (path,), a))
    infer = ctx.prog.func("helpers", "gdal_driver_from_path")
    for path, kw, want in (
            ("x.tif2", {}, "SHP"), ("x.tif2", {"raster": False}, "SHP"),
            ("x.tif2", {"vector": False}, None), ("x.tif", {"vector": False}, "GTiff"),
            ("x.tif", {"raster": False}, None), ("a.b/X.NC", {"raster": False}, "Both"),
            ("x.nc", {"vector": False}, "Both"), ("x.JPG", {}, "JPEG"),
            ("tif", {}, None), ("x.jpg.bak", {}, None),
            ("x.shp", {"raster": False, "vector": False}, None)):
        def named(l):
            begin(l, {})
            d = l.resolve(l.call_func(infer, [path], dict(kw)))
            return None if d is None else l.getattr(d, "ShortName")
        C.check(ctx, "R5-write", f"helpers.gdal_driver_from_path[{path}, {kw}]",
                lift(ctx, named), want)
    bad = {
        "unknown driver": ([flat, "x.tif"], {"driver": "Nope"}),
        "unknown extension": ([flat, "x.xyz"], {}), "no extension": ([flat, "x"], {}),
        "vector extension": ([flat, "x.shp"], {}),
        "extension within another": ([flat, "x.if"], {}),
        "read only": ([flat, "x.view"], {}),
        "read only driver": ([flat, "x.tif"], {"driver": "View"}),
        "unsupported type": ([V.Arr(counts.data, counts.dims, "b"), "x.tif"], {}),
        "text that is no reference system": ([flat, "x.tif"], {"crs": "WGS 84"}),
        "reference system of another type": ([flat, "x.tif"], {"crs": 12.5}),
    }
    for name, (args, kw) in bad.items():
        def body(l):
            begin(l, {})
            return l.call_func(fn, [args[0].copy(), args[1]], dict(kw))
        C.check_raises(ctx, "R6-reject", f"helpers.write_raster[{name}]", lift(ctx, body))
    rasters(ctx)


def rasters(ctx):
    for (name, g), kw, path in itertools.product({
            "north up": SG.G((4, 3)), "south up": SG.G((4, 3), sy=1),
            "west": SG.G((3, 4), sx=-1)}.items(),
            ({}, {"nan": -9999}, {"crs": "+proj=longlat"}), ("x.tif", "x.jpg")):
        z = cells(g.ny, g.nx)
        z.data[1, 1] = NAN

        def body(l):
            fs = begin(l, {})
            r = g.raster(l, z.copy(), crs=32633)
            method(l, r, "write", path, **kw)
            ds = fs.files[path]
            if name == "west" and ds.driver == "GTiff":
                return contents(ds)[1:4]
            q = l.resolve(l.call(l.getattr(V.ClassRef(l.prog.cls("Raster")), "open"),
                                 [path], {}))
            # limits of unknown numbers are not cropped here
            return contents(ds)[1:4]
        tf = (g.x[0], g.dx, 0, g.y[0], 0, g.dy)
        tag = ",".join(f"{k}={v}" for k, v in kw.items())
        C.check(ctx, "R5-write", f"Raster.write[{name},{tag},{path}]", lift(ctx, body), (
            tf, "proj4<+proj=longlat>" if "crs" in kw else "epsg<32633>",
            (kw.get("nan"),)))
    for name, src in SOURCES.items():
        for kw in ({}, {"nan": -9999}):
            if src.kind == "i" and kw:
                continue

            def again(l):
                fs = begin(l, {"a.tif": src.data()})
                cls = V.ClassRef(l.prog.cls("Raster"))
                r = l.resolve(l.call(l.getattr(cls, "open"), ["a.tif"], {}))
                method(l, r, "write", "b.tif", **dict(kw, crs=None))
                q = l.resolve(l.call(l.getattr(cls, "open"), ["b.tif"], {}))
                return state(l, q)
            x, y, size, a = wanted(ctx, src)
            C.check(ctx, "R5-write", f"Raster.write, Raster.open[{name},{kw}]",
                    lift(ctx, again), (SG.farr(*x), SG.farr(*y),
                                       SG.farr(*size, kind="i"), None, a))
