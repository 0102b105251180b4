"""Specification of grid coordinates, written from the documentation."""
from ..vg import term as T
from ..vg import value as V


def farr(*xs, kind="f"):
    a = V.to_arr(list(xs))
    a.kind = kind
    return a


class G:
    """Limits and size of a grid; a lifted Grid or Raster made from them.

    `size` is (nx, ny), symbolic by default; `sx`, `sy` are +1 where the coordinate
    increases with the column or row.
    """

    def __init__(self, size=None, sx=1, sy=-1, prefix="", late=False, unit=False):
        p = prefix
        self.nx, self.ny = size if size is not None else (
            T.sym(p + "nx", (), "posint"), T.sym(p + "ny", (), "posint"))
        self.late = late
        if unit:
            # cells of size one at small integers: boundary cases are hit exactly
            xa, ya = (T.sym(p + n, (), ("choice", (-1, 0, 2))) for n in ("ux", "uy"))
            w, h = self.nx, self.ny
        else:
            xa, ya = T.sym(p + "xa"), T.sym(p + "ya")
            w, h = (T.sym(p + n, (), ("range", 1.0, 40.0)) for n in ("w", "h"))
        self.x = (xa, T.add(xa, w) if sx > 0 else T.sub(xa, w))
        self.y = (ya, T.add(ya, h) if sy > 0 else T.sub(ya, h))
        self.sx, self.sy = sx, sy

    @property
    def xlim(self):
        return farr(*self.x)

    @property
    def ylim(self):
        return farr(*self.y)

    @property
    def size(self):
        return farr(self.nx, self.ny, kind="i")

    def shifted(self, dx=0, dy=0):
        g = G.__new__(G)
        g.__dict__.update(self.__dict__)
        g.x = tuple(T.add(v, dx) for v in self.x)
        g.y = tuple(T.add(v, dy) for v in self.y)
        return g

    def replace(self, **kw):
        g = G.__new__(G)
        g.__dict__.update(self.__dict__)
        g.__dict__.update(kw)
        return g

    def build(self, l, **kw):
        cls = l.prog.cls("Grid")
        if not self.late:
            return l.construct(cls, [self.size], dict(x=self.xlim, y=self.ylim, **kw))
        o = G(prefix="first_")
        g = l.construct(cls, [o.size], dict(x=o.xlim, y=o.ylim, **kw))
        for a in ("x", "y", "X", "Y", "d"):
            l.getattr(g, a)
        l.setattr(g, "xlim", self.xlim)
        l.setattr(g, "ylim", self.ylim)
        l.setattr(g, "size", self.size)
        return g

    def raster(self, l, array, **kw):
        return l.construct(l.prog.cls("Raster"), [array],
                           dict(x=self.xlim, y=self.ylim, **kw))

    # -- documented quantities ---------------------------------------------------
    @property
    def dx(self):
        return T.div(T.sub(self.x[1], self.x[0]), self.nx)

    @property
    def dy(self):
        return T.div(T.sub(self.y[1], self.y[0]), self.ny)

    @property
    def min(self):
        return (self.x[0] if self.sx > 0 else self.x[1],
                self.y[0] if self.sy > 0 else self.y[1])

    @property
    def max(self):
        return (self.x[1] if self.sx > 0 else self.x[0],
                self.y[1] if self.sy > 0 else self.y[0])

    def xc(self, j):
        """x of the center of column j."""
        return T.add(self.x[0], T.mul(T.add(j, 0.5), self.dx))

    def yc(self, i):
        return T.add(self.y[0], T.mul(T.add(i, 0.5), self.dy))

    def centers(self):
        """Center vectors x and y (lengths may be symbolic)."""
        out = []
        for n, f in ((self.nx, self.xc), (self.ny, self.yc)):
            if isinstance(n, int):
                out.append(farr(*[f(i) for i in range(n)]))
                continue
            from ..vg.npmod import dim_of_len
            d = dim_of_len(n)
            a = V.obj_array((1,))
            a[0] = f(T.rowindex(d))
            out.append(V.Arr(a, (d,), "f"))
        return out

    def matrices(self):
        x, y = self.centers()
        X = V.obj_array((len(y.data), len(x.data)))
        Y = V.obj_array((len(y.data), len(x.data)))
        for i in range(len(y.data)):
            for j in range(len(x.data)):
                X[i, j], Y[i, j] = x.data[j], y.data[i]
        dims = (y.dims[0], x.dims[0])
        return V.Arr(X, dims, "f"), V.Arr(Y, dims, "f")

    def frac(self, x, y):
        """Position in cells from the first edge."""
        return (T.div(T.sub(x, self.x[0]), self.dx), T.div(T.sub(y, self.y[0]), self.dy))

    def cell(self, x, y, inbounds=True):
        """Column and row of the cell of a point (of the nearest cell center)."""
        out = []
        for t, v, n, e in zip(self.frac(x, y), (x, y), (self.nx, self.ny),
                              (self.x[1], self.y[1])):
            k = T.app("floor", t)
            if inbounds:
                k = T.ite(T.app("eq", v, e), T.sub(n, 1), k)
            out.append(k)
        return out

    def inside(self, x, y):
        lo, hi = self.min, self.max
        return T.land(T.app("le", lo[0], x), T.app("le", x, hi[0]),
                      T.app("le", lo[1], y), T.app("le", y, hi[1]))
