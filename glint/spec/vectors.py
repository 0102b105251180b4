"""A stand-in for OGR: polygons of layers, and their rasterization by GDAL."""
from ..vg import npmod, term as T
from ..vg.interp import PyError
from ..vg.value import Native, Obj, Unsupported
from .rasterfile import TYPES, Gdal

TYPE_NAMES = ("Byte", "UInt16", "Int16", "UInt32", "Int32", "Float32", "Float64")


class Ogr(Gdal):
    """Installs both stand-ins."""

    def __init__(self, l):
        super().__init__(l)
        for k, n in enumerate(TYPE_NAMES, 1):
            npmod.EXT_CONST["osgeo.gdal.GDT_" + n] = k
        for n in ("wkbLinearRing", "wkbPolygon", "wkbMultiPolygon"):
            npmod.EXT_CONST["osgeo.ogr." + n] = n
        for n, fn in (("ogr.Geometry", self.geometry), ("ogr.Feature", self.feature),
                      ("ogr.GetDriverByName", self.vector_driver),
                      ("gdal.RasterizeLayer", self.rasterize)):
            l.ext["osgeo." + n] = self.wrap(fn)

    def geometry(self, type="wkbPolygon"):
        o = Obj("Geometry", {})
        o.type, o.points, o.parts = type, [], []

        def add(x, y, *z):
            self.plain()
            if type != "wkbLinearRing":
                raise PyError("RuntimeError: points of a geometry with parts")
            o.points.append((self.l.resolve(x), self.l.resolve(y)))

        def part(g):
            self.plain()
            g = self.l.resolve(g)
            want = {"wkbPolygon": "wkbLinearRing", "wkbMultiPolygon": "wkbPolygon"}
            if getattr(g, "type", None) != want.get(type):
                raise PyError("RuntimeError: not a part of this geometry")
            # GDAL adds a copy
            c = self.geometry(g.type)
            c.points, c.parts = list(g.points), list(g.parts)
            o.parts.append(c)
            return 0
        for n, fn in (("AddPoint", add), ("AddPoint_2D", add), ("AddGeometry", part),
                      ("AddGeometryDirectly", part),
                      ("CloseRings", lambda: None), ("FlattenTo2D", lambda: None)):
            o.attrs[n] = Native(fn)
        return o

    def plain(self):
        if self.l.cond(self.l.base_pc) is not True:
            raise Unsupported("conditional change of a geometry")

    def feature(self, defn=None):
        o = Obj("Feature", {})
        o.geometry = None

        def put(g):
            g = self.l.resolve(g)
            self.plain()
            if getattr(g, "type", None) is None:
                raise PyError("TypeError: not a geometry")
            o.geometry = g
            return 0
        o.attrs["SetGeometry"] = o.attrs["SetGeometryDirectly"] = Native(put)
        return o

    def vector_driver(self, name):
        if name.lower() not in ("memory", "mem"):
            raise Unsupported("vector driver")
        return Obj("Driver", {"CreateDataSource": Native(self.source)})

    def source(self, *a, **kw):
        layers = []

        def create(*a, **kw):
            o = Obj("Layer", {})
            o.features = []

            def add(f):
                self.plain()
                o.features.append(self.l.resolve(f).geometry)
                return 0
            o.attrs["GetLayerDefn"] = Native(lambda: Obj("FeatureDefn", {}))
            o.attrs["CreateFeature"] = Native(add)
            o.attrs["GetFeatureCount"] = Native(lambda *a: len(o.features))
            layers.append(o)
            return o

        def get(i=0):
            i = self.l.resolve(i)
            return layers[i] if isinstance(i, int) and 0 <= i < len(layers) else None
        return Obj("DataSource", {"CreateLayer": Native(create), "GetLayer": Native(get),
                                  "GetLayerByIndex": Native(get)})

    def rasterize(self, dataset, bands, layer, *a, burn_values=(), options=(), **kw):
        """Cells with centers in the polygons of a layer get a value."""
        ds = dataset.data
        options = list(self.l.iterate(options))
        bands = [self.l.resolve(b) for b in self.l.iterate(bands)]
        values = [self.l.resolve(v) for v in self.l.iterate(burn_values)]
        if a or kw or options or getattr(layer, "features", None) is None or len(
                values) != len(bands) or not all(isinstance(b, int) for b in bands):
            raise Unsupported("rasterization of this kind")
        self.plain()
        t = [self.l.resolve(v) for v in ds.transform]
        if t[2] != 0 or t[4] != 0:
            raise Unsupported("rotated grid")
        ny, nx = ds.shape
        for g in layer.features:
            if g is None:
                continue
            polygons = g.parts if g.type == "wkbMultiPolygon" else [g]
            for i in range(ny):
                for j in range(nx):
                    x = T.add(t[0], T.mul(t[1], j + 0.5))
                    y = T.add(t[3], T.mul(t[5], i + 0.5))
                    within = False
                    for p in polygons:
                        within = T.lor(within, inside(x, y, [r.points for r in p.parts]))
                    for b, v in zip(bands, values):
                        if TYPES[ds.code][1] == "i" and T.is_num(v):
                            v = int(v)
                        d = ds.bands[b - 1].data
                        d[i, j] = T.ite(within, v, d[i, j])
        return 0


def inside(x, y, rings):
    """Whether edges of the rings are crossed an odd number of times (to the right)."""
    odd = False
    for ring in rings:
        for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
            a, b = T.app("lt", y, y1), T.app("lt", y, y2)
            at = T.add(x1, T.div(T.mul(T.sub(x2, x1), T.sub(y, y1)), T.sub(y2, y1)))
            if T.is_num(a) and T.is_num(b) and bool(a) == bool(b):
                continue
            cross = T.land(T.ite(a, T.lnot(b), b), T.app("lt", x, at))
            odd = T.ite(cross, T.lnot(odd), odd)
    return odd
