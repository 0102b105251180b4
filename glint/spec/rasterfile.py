"""A stand-in for GDAL: data sets of named files, windows read from them."""
import math
import posixpath

from ..vg import npmod, term as T
from ..vg import value as V
from ..vg.interp import PyError
from ..vg.value import Ext, Native, Obj, Unsupported

# type code, numpy type, kind
TYPES = {1: ("uint8", "i"), 2: ("uint16", "i"), 3: ("int16", "i"), 4: ("uint32", "i"),
         5: ("int32", "i"), 6: ("float32", "f"), 7: ("float64", "f")}
CODE = {"f": 7, "i": 5}
NAMES = {"GA_ReadOnly": 0, "GA_Update": 1, "GDT_Unknown": 0, **{
    n: n for n in ("DCAP_RASTER", "DCAP_VECTOR", "DCAP_CREATE", "DCAP_CREATECOPY",
                   "DMD_EXTENSIONS", "DMD_EXTENSION", "DMD_LONGNAME")}}
#: name, raster, vector, extensions, create, copy
DRIVERS = (("SHP", False, True, "shp dbf tif2", True, True),
           ("GTiff", True, False, "tif tiff", True, True),
           ("NoExt", True, False, None, True, True),
           ("Both", True, True, "gpkg nc", True, False),
           ("JPEG", True, False, "jpg jpeg", False, True),
           ("View", True, False, "view", False, False),
           ("MEM", True, False, None, True, False))


class Data:
    """A data set. Bands are arrays (ny, nx); `missing` is one value per band."""

    def __init__(self, bands, transform=(0, 1, 0, 0, 0, 1), crs="", missing=None,
                 code=7, driver=None):
        self.bands = bands
        self.transform = tuple(transform)
        self.crs = crs
        self.missing = missing or [None] * len(bands)
        self.code = code
        self.driver = driver

    @property
    def shape(self):
        return self.bands[0].dims


class Gdal:
    """Installs the stand-in; `files` are data sets by path."""

    def __init__(self, l, files=None):
        self.l = l
        self.files = dict(files or {})
        self.refs = []
        for n, v in NAMES.items():
            npmod.EXT_CONST["osgeo.gdal." + n] = v
        npmod.EXT_CONST["osgeo.gdal_array.codes"] = {
            k: Ext("numpy." + n) for k, (n, _) in TYPES.items()}
        x = l.ext
        for n, fn in (
                ("gdal.Open", self.open), ("gdal.OpenEx", self.open),
                ("gdal.GetDriverCount", lambda: len(DRIVERS)),
                ("gdal.GetDriver", lambda i: self.driver(DRIVERS[i])),
                ("gdal.GetDriverByName", self.by_name),
                ("gdal_array.GDALTypeCodeToNumericTypeCode",
                 lambda c: Ext("numpy." + TYPES[c][0])),
                ("gdal_array.NumericTypeCodeToGDALTypeCode", self.code),
                ("osr.SpatialReference", self.reference),
                ("gdal.UseExceptions", lambda: None)):
            x["osgeo." + n] = self.wrap(fn)
        copy = self.wrap(lambda a: npmod.arr(l, a).copy())
        x["sharedmem.copy"] = x["sharedmem.sharedmem.copy"] = copy

    @staticmethod
    def wrap(fn):
        return lambda l, args, kw: fn(*[l.resolve(a) for a in args], **{
            k: l.resolve(v) for k, v in kw.items()})

    # -- drivers ------------------------------------------------------------------
    def by_name(self, name):
        for d in DRIVERS:
            if d[0].lower() == name.lower():
                return self.driver(d)

    def driver(self, d):
        name, raster, vector, ext, create, copy = d
        meta = {k: "YES" for k, on in (("DCAP_RASTER", raster), ("DCAP_VECTOR", vector),
                                       ("DCAP_CREATE", create), ("DCAP_CREATECOPY", copy))
                if on}
        if ext is not None:
            meta["DMD_EXTENSIONS"] = ext
        return Obj("Driver", {
            "ShortName": name, "LongName": name,
            "GetMetadata": Native(lambda: dict(meta)),
            "GetMetadataItem": Native(lambda k, *a: meta.get(k)),
            "Create": Native(lambda *a, **k: self.create(d, *a, **k)),
            "CreateCopy": Native(lambda *a, **k: self.copy(d, *a, **k))})

    def create(self, d, utf8_path, xsize, ysize, bands=1, eType=1, options=()):
        if not d[4]:
            raise PyError("AttributeError: the driver does not create files")
        args = [self.l.resolve(v) for v in (utf8_path, xsize, ysize, bands, eType)]
        path, nx, ny, n, code = args
        if not isinstance(path, str) or not all(isinstance(v, int) for v in args[1:]):
            raise Unsupported("data set of unknown size")
        ds = Data([V.full((ny, nx), 0, TYPES[code][1]) for _ in range(n)], code=code,
                  driver=d[0])
        if d[0] != "MEM":
            self.files[posixpath.normpath(path)] = ds
        return self.dataset(ds)

    def copy(self, d, path, src, strict=1, *a, **kw):
        if not d[5]:
            raise PyError("AttributeError: the driver does not copy files")
        s = self.l.resolve(src).data
        ds = Data([b.copy() for b in s.bands], s.transform, s.crs, list(s.missing),
                  s.code, d[0])
        self.files[posixpath.normpath(self.l.resolve(path))] = ds
        return self.dataset(ds)

    @staticmethod
    def code(dtype):
        n = dtype.name.rsplit(".", 1)[-1] if isinstance(dtype, Ext) else None
        if n is None:
            raise Unsupported("unknown data type")
        return next((k for k, (m, _) in TYPES.items() if m == n),
                    {"int64": 5}.get(n))

    # -- references -----------------------------------------------------------------
    def reference(self, *args):
        o = Obj("SpatialReference", {"wkt": ""})

        def put(kind):
            def fn(v):
                v = self.l.resolve(v)
                o.attrs["wkt"] = v if kind == "wkt" else f"{kind}<{v}>"
                return 0
            return Native(fn)
        for n, k in (("EPSG", "epsg"), ("Wkt", "wkt"), ("Proj4", "proj4")):
            o.attrs["ImportFrom" + n] = put(k)
        o.attrs["ExportToWkt"] = Native(lambda *a: o.attrs["wkt"])
        return o

    # -- data sets --------------------------------------------------------------------
    def open(self, path, *a, **kw):
        if not isinstance(path, str):
            raise PyError("TypeError: not a path") if path is None else Unsupported(
                "path of unknown value")
        ds = self.files.get(posixpath.normpath(path))
        return None if ds is None else self.dataset(ds)

    def dataset(self, ds):
        ny, nx = ds.shape

        def put(name):
            def fn(v):
                v = self.l.resolve(v)
                if self.l.cond(self.l.base_pc) is not True:
                    raise Unsupported("conditional change of a data set")
                setattr(ds, name, tuple(self.l.iterate(v)) if name == "transform" else v)
                return 0
            return Native(fn)
        o = Obj("Dataset", {
            "RasterXSize": nx, "RasterYSize": ny, "RasterCount": len(ds.bands),
            "GetGeoTransform": Native(lambda *a: tuple(ds.transform)),
            "SetGeoTransform": put("transform"),
            "GetProjection": Native(lambda: ds.crs), "SetProjection": put("crs"),
            "GetProjectionRef": Native(lambda: ds.crs),
            "GetRasterBand": Native(lambda i: self.band(ds, self.l.resolve(i))),
            "FlushCache": Native(lambda: None),
            "ReadAsArray": Native(lambda *a, **k: self.read_all(ds, *a, **k))})
        o.data = ds
        return o

    def read_all(self, ds, xoff=0, yoff=0, xsize=None, ysize=None, **kw):
        r = [self.window(b, TYPES[ds.code][1], xoff, yoff, xsize, ysize, **kw)
             for b in ds.bands]
        return r[0] if len(r) == 1 else V.stack(r, 0)

    def band(self, ds, i):
        if not isinstance(i, int):
            raise Unsupported("band of unknown number")
        if not 1 <= i <= len(ds.bands):
            return None
        i -= 1

        def setmissing(v):
            ds.missing[i] = self.l.resolve(v)
            return 0

        def write(a, xoff=0, yoff=0):
            a = npmod.arr(self.l, a)
            if self.l.cond(self.l.base_pc) is not True:
                raise Unsupported("conditional change of a data set")
            if a.ndim != 2:
                raise PyError("ValueError: expected array of dim 2")
            if not all(isinstance(d, int) for d in a.dims):
                raise Unsupported("array of unknown size")
            x0, y0 = self.l.resolve(xoff), self.l.resolve(yoff)
            if a.dims[0] + y0 > ds.shape[0] or a.dims[1] + x0 > ds.shape[1]:
                raise PyError("ValueError: array larger than output file")
            ds.bands[i].data[y0:y0 + a.dims[0], x0:x0 + a.dims[1]] = a.data
            return 0
        return Obj("Band", {
            "DataType": ds.code, "XSize": ds.shape[1], "YSize": ds.shape[0],
            "GetNoDataValue": Native(lambda: ds.missing[i]),
            "SetNoDataValue": Native(setmissing),
            "WriteArray": Native(write),
            "FlushCache": Native(lambda: None),
            "ReadAsArray": Native(lambda *a, **k: self.window(
                ds.bands[i], TYPES[ds.code][1], *a, **k))})

    def window(self, a, kind, xoff=0, yoff=0, win_xsize=None, win_ysize=None,
               buf_xsize=None, buf_ysize=None, buf_obj=None, buf_type=None,
               resample_alg=None):
        """The nearest cells of a window of the data."""
        ny, nx = a.dims
        x0, y0, w, h, bw, bh = [self.l.resolve(v) for v in (
            xoff, yoff, win_xsize, win_ysize, buf_xsize, buf_ysize)]
        w = nx if w is None else w
        h = ny if h is None else h
        bw = int(w + 0.5) if bw is None else bw
        bh = int(h + 0.5) if bh is None else bh
        if buf_obj is not None or resample_alg not in (None, 0):
            raise Unsupported("reading into a buffer, or resampled")
        if not all(T.is_num(v) for v in (x0, y0, w, h, bw, bh)):
            raise Unsupported("window of unknown size")
        if bw != int(bw) or bh != int(bh):
            raise PyError("TypeError: buffer sizes are whole numbers")
        e = 1e-9
        near = [int(v + 0.5) for v in (x0, y0, w, h)]   # the window GDAL tests
        if x0 < 0 or y0 < 0 or near[0] + near[2] > nx or near[1] + near[3] > ny or min(
                near[2:]) < 1 or min(bw, bh) < 1:
            return None
        rows, cols = ([min(math.floor(o + (i + 0.5) * s / n + e), m - 1)
                       for i in range(int(n))] for o, s, n, m in (
                           (y0, h, bh, ny), (x0, w, bw, nx)))
        return pick(a, rows, cols, kind)


def pick(a, rows, cols, kind=None):
    d = V.obj_array((len(rows), len(cols)))
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            d[i, j] = a.data[r, c]
    return V.Arr(d, d.shape, kind or a.kind)
