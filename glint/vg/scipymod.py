"""Abstract semantics of interpolators, gradients and illumination.

Interpolators act point by point.  Piecewise linear and nearest-neighbour interpolation
are tabulated by their definition; higher orders are uninterpreted functions of the data
and of the point.
"""
import numpy as np

from . import decide
from . import term as T
from .value import Arr, Native, Obj, Unsupported, full, is_scalar, obj_array, simplify0, to_arr


def vec(v):
    a = to_arr(v)
    if a.ndim != 1 or not isinstance(a.dims[0], int):
        raise Unsupported("interpolation over a vector of symbolic length")
    return list(a.data)


def raise_where(l, cond, name):
    if T.is_num(cond):
        if cond:
            from .interp import PyError
            raise PyError(name)
        return
    if decide.constant(cond) is False:
        return
    l.raises.append((T.land(l.cond(l.base_pc), cond), name, l.where()))


def order(xs):
    """+1 ascending, -1 descending, 0 neither, None not decided."""
    if len(xs) < 2:
        return 1
    for op, s in (("lt", 1), ("gt", -1)):
        r = [decide.constant(T.app("lt", *((a, b) if s > 0 else (b, a))))
             for a, b in zip(xs, xs[1:])]
        if all(v is True or v == 1 for v in r):
            return s
    if any(v is None for v in r):
        return None
    return 0


def linear(xs, ys, x):
    """Piecewise linear interpolation, extrapolated (xs ascending)."""
    if len(xs) == 1:
        return ys[0]

    def seg(i):
        w = T.div(T.sub(x, xs[i]), T.sub(xs[i + 1], xs[i]))
        return T.add(ys[i], T.mul(w, T.sub(ys[i + 1], ys[i])))
    r = seg(len(xs) - 2)
    for i in range(len(xs) - 3, -1, -1):
        r = T.ite(T.app("lt", x, xs[i + 1]), seg(i), r)
    return r


def nearest(xs, ys, x):
    r = ys[-1]
    for i in range(len(xs) - 2, -1, -1):
        mid = T.div(T.add(xs[i], xs[i + 1]), 2)
        r = T.ite(T.app("le", x, mid), ys[i], r)
    return r


def along(kind, xs, ys, x):
    if kind == "linear":
        return linear(xs, ys, x)
    if kind == "nearest":
        return nearest(xs, ys, x)
    return T.opaque(f"interpolate-{kind}-{len(xs)}", tuple(xs) + tuple(ys) + (x,))


def surface(kind, xs, ys, v, x, y):
    """v[i][j] at xs[i], ys[j]."""
    if kind in ("linear", "nearest"):
        return along(kind, xs, [along(kind, ys, c, y) for c in v], x)
    if kind.startswith("spline") and all(
            T.is_num(t) for t in [x, y, *xs, *ys, *(t for c in v for t in c)]):
        # known values
        from scipy.interpolate import RectBivariateSpline
        kx, ky, *s = (float(k) for k in kind[6:].split(","))
        if len(xs) > kx and len(ys) > ky:
            return float(RectBivariateSpline(
                xs, ys, v, kx=int(kx), ky=int(ky), s=s[0] if s else 0)(x, y, grid=False))
    return T.opaque(f"interpolate2-{kind}-{len(xs)}-{len(ys)}", tuple(xs) + tuple(ys) +
                    tuple(t for c in v for t in c) + (x, y))


def table(l, values, n, m):
    a = to_arr(values)
    if a.ndim != 2 or not all(isinstance(d, int) for d in a.dims):
        raise Unsupported("interpolation table")
    if tuple(a.dims) != (n, m):
        from .interp import PyError
        raise PyError("KeyError: interpolation table of another shape")
    return [[a.data[i, j] for j in range(m)] for i in range(n)]


def arranged(l, xs, ys, v, flip):
    """Data in ascending order of both coordinates."""
    for k in (0, 1):
        o = order((xs, ys)[k])
        if o is None or o == 0:
            raise Unsupported("order of the interpolation points")
        if o < 0:
            if not flip:
                from .interp import PyError
                raise PyError("KeyError: x must be strictly increasing")
            if k == 0:
                xs, v = xs[::-1], v[::-1]
            else:
                ys, v = ys[::-1], [c[::-1] for c in v]
    return xs, ys, v


def native(name, call, **attrs):
    o = Obj(name, dict(attrs))
    o.native_call = call
    return o


def regular_grid(l, points, values, method="linear", bounds_error=True,
                 fill_value=float("nan"), **kw):
    if len(points) != 2:
        raise Unsupported("interpolation in other than two dimensions")

    def call(l, xi, method=None):
        how = method if method is not None else o.attrs["method"]
        be, fv = o.attrs["bounds_error"], o.attrs["fill_value"]

        def f(px, py, vals, q):
            xs, ys = vec(px), vec(py)
            xs, ys, v = arranged(l, xs, ys, table(l, vals, len(xs), len(ys)), True)
            q = to_arr(q)
            if q.ndim != 2 or q.dims[1] != 2:
                raise Unsupported("interpolation points")
            out = obj_array((q.data.shape[0],))
            for i in range(len(out)):
                x, y = q.data[i]
                r = surface(how, xs, ys, v, x, y)
                inside = T.land(T.app("le", xs[0], x), T.app("le", x, xs[-1]),
                                T.app("le", ys[0], y), T.app("le", y, ys[-1]))
                if be is True:
                    if q.dims and isinstance(q.dims[0], int):
                        raise_where(l, T.lnot(inside), "ValueError")
                    else:
                        raise Unsupported("bounds error")
                elif be is False:
                    if fv is not None:
                        r = T.ite(inside, r, fv)
                else:
                    raise Unsupported("bounds_error")
                out[i] = r
            return Arr(out, (q.dims[0],), "f")
        return l.lift_gates(f, points[0], points[1], values, xi)
    o = native("RegularGridInterpolator", call, method=method,
               bounds_error=bounds_error, fill_value=fill_value)
    o.term_args = lambda: [points[0], points[1], values]
    return o


def interp1d(l, x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
             fill_value=float("nan"), assume_sorted=False):
    names = {0: "nearest", 1: "linear", 2: "quadratic", 3: "cubic"}
    kind = names.get(kind, kind)

    def call(l, xi):
        def f(px, py, q):
            xs, ys = vec(px), vec(py)
            if len(xs) != len(ys):
                from .interp import PyError
                raise PyError("KeyError: x and y of different length")
            o = order(xs)
            if o is None or o == 0 or (o < 0 and assume_sorted):
                raise Unsupported("order of the interpolation points")
            if o < 0:
                xs, ys = xs[::-1], ys[::-1]
            q = to_arr(q)
            out = obj_array(q.data.shape)
            for i in np.ndindex(*q.data.shape):
                r = along(kind, xs, ys, q.data[i])
                if fill_value != "extrapolate":
                    inside = T.land(T.app("le", xs[0], q.data[i]),
                                    T.app("le", q.data[i], xs[-1]))
                    if bounds_error is False:
                        r = T.ite(inside, r, fill_value)
                    else:
                        raise Unsupported("bounds error")
                out[i] = r
            return simplify0(Arr(out, q.dims, "f"))
        return l.lift_gates(f, x, y, xi)
    o = native("interp1d", call)
    o.term_args = lambda: [x, y]
    return o


def bivariate_spline(l, x, y, z, bbox=None, kx=3, ky=3, s=0, **kw):
    def call(l, qx, qy, dx=0, dy=0, grid=True):
        if dx or dy or not isinstance(kx, int) or not isinstance(ky, int) or not isinstance(
                s, (int, float)):
            raise Unsupported("spline options")
        if kx < 1 or ky < 1:
            from .interp import PyError
            raise PyError("KeyError: spline order")
        lim = list(to_arr(bbox).data.flat) if bbox is not None else [None] * 4

        def f(px, py, vals, ax, ay):
            xs, ys = vec(px), vec(py)
            xs, ys, v = arranged(l, xs, ys, table(l, vals, len(xs), len(ys)), False)
            kind = "linear" if (kx, ky, s) == (1, 1, 0) else f"spline{kx},{ky}"
            if s != 0:
                # smoothed
                kind += f",{s}"
            lo = [xs[0], ys[0]]
            hi = [xs[-1], ys[-1]]
            for k in (0, 1):
                if lim[2 * k] is not None:
                    lo[k], hi[k] = lim[2 * k], lim[2 * k + 1]

            def clip(t, k):
                return T.app("min2", T.app("max2", t, lo[k]), hi[k])
            ax, ay = to_arr(ax), to_arr(ay)
            # a spline of missing values has no value anywhere
            missing = T.lor(*[T.app("isnan", t) for c in v for t in c])

            def value(p, q):
                return T.ite(missing, float("nan"), surface(
                    kind, xs, ys, v, clip(p, 0), clip(q, 1)))
            if grid:
                for q in (ax, ay):
                    if q.ndim != 1 or not isinstance(q.dims[0], int):
                        raise Unsupported("grid of symbolic size")
                    for a, b in zip(q.data, q.data[1:]):
                        raise_where(l, T.app("lt", b, a), "ValueError")
                out = obj_array((len(ax.data), len(ay.data)))
                for i, p in enumerate(ax.data):
                    for j, q in enumerate(ay.data):
                        out[i, j] = value(p, q)
                return Arr(out, out.shape, "f")
            out = obj_array(ax.data.shape)
            for i in np.ndindex(*out.shape):
                out[i] = value(ax.data[i], ay.data[i])
            return simplify0(Arr(out, ax.dims, "f"))
        return l.lift_gates(f, x, y, z, qx, qy)
    o = native("RectBivariateSpline", call)
    o.term_args = lambda: [x, y, z]
    return o


def gradient(l, f, *spacing, axis=None, edge_order=1):
    a = to_arr(f)
    if not all(isinstance(d, int) for d in a.dims) or edge_order != 1:
        raise Unsupported("gradient")
    axes = range(a.ndim) if axis is None else (
        [axis] if isinstance(axis, int) else list(axis))
    axes = [k % a.ndim for k in axes]
    hs = [simplify0(h) for h in spacing]
    if not hs:
        hs = [1.0] * len(axes)
    if len(hs) == 1:
        hs = hs * len(axes)
    if len(hs) != len(axes):
        from .interp import PyError
        raise PyError("TypeError: invalid number of arguments")
    if any(isinstance(h, Arr) for h in hs):
        raise Unsupported("gradient with coordinates")
    outs = []
    for k, h in zip(axes, hs):
        n = a.dims[k]
        if n < 2:
            from .interp import PyError
            raise PyError("KeyError: gradient of a single row or column")
        m = np.moveaxis(a.data, k, 0)
        o = obj_array(m.shape)
        for i in np.ndindex(*m.shape):
            lo, hi = max(i[0] - 1, 0), min(i[0] + 1, n - 1)
            o[i] = T.div(T.sub(m[(hi,) + i[1:]], m[(lo,) + i[1:]]),
                         T.mul(hi - lo, h))
        outs.append(Arr(np.moveaxis(o, 0, k), a.dims, "f"))
    return outs[0] if len(outs) == 1 else outs


def illuminate(z, dx, dy, azdeg, altdeg, fraction=1, raw=False):
    """Illumination of a surface with spacing dx (columns) and dy (rows)."""
    gy, gx = gradient(None, z, dy, dx)
    az = T.mul(T.sub(90, azdeg), np.pi / 180)
    alt = T.mul(altdeg, np.pi / 180)
    d = (T.mul(T.cos(az), T.cos(alt)), T.mul(T.sin(az), T.cos(alt)), T.sin(alt))
    ts = []
    for p, q in zip(gx.data.flat, gy.data.flat):
        norm = T.app("sqrt", T.add(T.add(T.mul(p, p), T.mul(q, q)), 1))
        dot = T.sub(T.sub(d[2], T.mul(p, d[0])), T.mul(q, d[1]))
        ts.append(T.div(dot, norm))
    lo = hi = ts[0]
    for t in ts[1:]:
        lo, hi = T.app("min2", lo, t), T.app("max2", hi, t)
    varied = T.app("lt", 1e-6, T.sub(hi, lo))
    out = obj_array(gx.data.shape)
    for i, t in enumerate(ts):
        f = T.mul(t, fraction)
        f = T.ite(varied, T.div(T.sub(f, lo), T.sub(hi, lo)), f)
        out.flat[i] = T.app("min2", T.app("max2", f, 0), 1)
    return Arr(out, gx.dims, "f")


def light_source(l, azdeg=315, altdeg=45, **kw):
    o = Obj("LightSource", {"azdeg": azdeg, "altdeg": altdeg})

    def hillshade(elevation, vert_exag=1, dx=1, dy=1, fraction=1.0):
        def f(z, dx, dy):
            z = to_arr(z)
            e = obj_array(z.data.shape)
            for i in np.ndindex(*e.shape):
                e[i] = T.mul(z.data[i], vert_exag)
            return illuminate(Arr(e, z.dims, "f"), dx, T.app("neg", dy), azdeg, altdeg,
                              fraction)
        return l.lift_gates(f, elevation, dx, dy)
    o.attrs["hillshade"] = Native(hillshade)
    return o


def cellwise(name, shape):
    """A filter: every cell of the result is an uninterpreted function of all cells."""
    def fn(l, a, *args, **kw):
        def f(x, *rest):
            x = to_arr(x)
            if x.ndim < 1 or not all(isinstance(d, int) for d in x.dims):
                raise Unsupported(f"{name} of an array of symbolic shape")
            n, m = len(args), sorted(kw)
            extra = []
            for k, v in zip([str(i) for i in range(n)] + m, rest):
                extra += [l.termify(k), l.termify(v)]
            dims = shape(x, rest[:n], dict(zip(m, rest[n:])))
            out = obj_array(dims)
            for i in np.ndindex(*dims):
                out[i] = T.opaque(name, tuple(x.data.flat) + tuple(x.dims) +
                                  tuple(extra) + i)
            return Arr(out, dims, "f" if name != "maximum_filter" else x.kind)
        return l.lift_gates(f, a, *args, *[kw[k] for k in sorted(kw)])
    return fn


def reflected(i, n):
    """Index into an axis extended by reflection about its edges."""
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def median_filter(l, a, *args, **kw):
    if set(kw) - {"size", "mode"} or len(args) > 1 or kw.get("mode") not in (
            None, "reflect"):
        return cellwise("median_filter", same_shape)(l, a, *args, **kw)
    size = l.resolve(args[0] if args else kw.get("size"))
    x = to_arr(l.resolve(a))
    if is_scalar(size):
        size = [size] * x.ndim
    size = list(to_arr(size).data.flat) if not isinstance(size, (list, tuple)) else size
    if not all(isinstance(d, int) for d in x.dims) or not all(
            isinstance(k, int) for k in size) or len(size) != x.ndim:
        return cellwise("median_filter", same_shape)(l, a, *args, **kw)
    out = obj_array(x.data.shape)
    for i in np.ndindex(*out.shape):
        xs = []
        for j in np.ndindex(*size):
            xs.append(x.data[tuple(reflected(p + q - k // 2, n) for p, q, k, n in zip(
                i, j, size, x.dims))])
        out[i] = T.rank(xs, len(xs) // 2)
    return Arr(out, x.dims, x.kind)


def numbers(v, n):
    """One number per axis (or None)."""
    v = list(to_arr(v).data.flat) if isinstance(v, (Arr, list, tuple)) else [v] * n
    return v if len(v) == n and all(T.is_num(x) for x in v) else None


def gaussian_filter(l, a, *args, **kw):
    """Weighted means of cells, over arrays extended by reflection about their edges."""
    x = l.resolve(a)
    k = {n: l.resolve(v) for n, v in zip(("sigma", "order"), args)}
    k.update({n: l.resolve(v) for n, v in kw.items()})
    x = to_arr(x) if isinstance(x, (Arr, list, tuple)) else None
    sd = None if x is None or "sigma" not in k else numbers(k["sigma"], x.ndim)
    if sd is None or set(k) - {"sigma", "truncate", "mode", "order"} or k.get(
            "mode", "reflect") != "reflect" or k.get("order", 0) != 0 or not T.is_num(
            k.get("truncate", 4.0)) or not all(isinstance(d, int) for d in x.dims) or \
            x.data.size > 36 or max(sd) > 2:
        return cellwise("gaussian_filter", same_shape)(l, a, *args, **kw)
    cur = x.data
    for ax, s in enumerate(sd):
        if s <= 1e-15:
            continue
        r = int(k.get("truncate", 4.0) * float(s) + 0.5)
        w = np.exp(-0.5 / (s * s) * np.arange(-r, r + 1) ** 2)
        w = w / w.sum()
        n = x.dims[ax]
        total = np.zeros((n, n))
        for i in range(n):
            for j, v in zip(range(-r, r + 1), w):
                total[i, reflected(i + j, n)] += v
        src = np.moveaxis(cur, ax, 0)
        out = obj_array(src.shape)
        for i in np.ndindex(*src.shape):
            v = 0
            for j in range(n):
                if total[i[0], j]:
                    v = T.add(v, T.mul(float(total[i[0], j]), src[(j,) + i[1:]]))
            out[i] = T.app("trunc", v) if x.kind == "i" else v
        cur = np.moveaxis(out, 0, ax)
    return Arr(cur.copy(), x.dims, x.kind)


def extreme_filter(op):
    """The greatest (or least) cells in windows, over arrays extended by reflection."""
    name = "maximum_filter" if op == "max2" else "minimum_filter"

    def fn(l, a, *args, **kw):
        x = l.resolve(a)
        k = {n: l.resolve(v) for n, v in zip(("size", "footprint"), args)}
        k.update({n: l.resolve(v) for n, v in kw.items()})
        x = to_arr(x) if isinstance(x, (Arr, list, tuple)) else None
        fp = k.get("footprint")
        if x is None or set(k) - {"size", "footprint", "mode"} or k.get(
                "mode", "reflect") != "reflect" or not all(
                isinstance(d, int) for d in x.dims) or x.data.size > 144:
            return cellwise(name, same_shape)(l, a, *args, **kw)
        if fp is not None:
            fp = to_arr(fp)
            size = list(fp.data.shape)
            at = [j for j in np.ndindex(*size) if fp.data[j]] if all(
                T.is_num(v) for v in fp.data.flat) else None
        else:
            size = numbers(k.get("size"), x.ndim) if k.get("size") is not None else None
            at = list(np.ndindex(*size)) if size and all(
                isinstance(v, int) and v > 0 for v in size) else None
        if at is None or len(size) != x.ndim or not at:
            return cellwise(name, same_shape)(l, a, *args, **kw)
        out = obj_array(x.data.shape)
        for i in np.ndindex(*out.shape):
            cells = []
            for j in at:
                c = tuple(reflected(p + q - m // 2, n) for p, q, m, n in zip(
                    i, j, size, x.dims))
                if c not in cells:
                    cells.append(c)
            v = x.data[cells[0]]
            for c in cells[1:]:
                v = T.app(op, v, x.data[c])
            out[i] = v
        return Arr(out, x.dims, x.kind)
    return fn


def match_template(l, image, templ, method, result=None, mask=None):
    """OpenCV template matching (squared differences)."""
    if result is not None or mask is not None or getattr(method, "name", None) not in (
            "cv2.TM_SQDIFF", "cv2.TM_SQDIFF_NORMED"):
        from .npmod import OpqArg
        raise OpqArg()
    s, t = to_arr(l.resolve(image)), to_arr(l.resolve(templ))
    if s.ndim != 2 or t.ndim != 2 or not all(
            isinstance(d, int) for d in s.dims + t.dims):
        raise Unsupported("template matching of this rank")
    out = obj_array((s.dims[0] - t.dims[0] + 1, s.dims[1] - t.dims[1] + 1))
    for i in np.ndindex(*out.shape):
        v = 0
        for j in np.ndindex(*t.data.shape):
            d = T.sub(s.data[i[0] + j[0], i[1] + j[1]], t.data[j])
            v = T.add(v, T.mul(d, d))
        if method.name.endswith("NORMED"):
            part = s.data[i[0]:i[0] + t.dims[0], i[1]:i[1] + t.dims[1]]
            size = [0, 0]
            for k, xs in enumerate((part, t.data)):
                for x in xs.flat:
                    size[k] = T.add(size[k], T.mul(x, x))
            v = T.div(v, T.app("sqrt", T.mul(*size)))
        out[i] = v
    return Arr(out, out.shape, "f")


def same_shape(x, args, kw):
    return tuple(x.dims)


def zoomed(x, args, kw):
    z = args[0] if args else kw["zoom"]
    z = list(to_arr(z).data.flat)
    z = z * x.ndim if len(z) == 1 else z
    if not all(T.is_num(k) for k in z):
        raise Unsupported("zoom by an unknown factor")
    return tuple(int(round(d * float(k))) for d, k in zip(x.dims, z))


def sparse_matrix(l, a, shape=None, dtype=None, copy=False):
    """Sparse matrices are modelled by their dense values."""
    a = l.resolve(a)
    if isinstance(a, tuple) and len(a) == 2 and all(isinstance(n, int) for n in a):
        return full(a, 0, "i")
    if isinstance(a, Arr) and a.ndim == 2:
        return a.copy()
    raise Unsupported("sparse matrix of this kind")


def differential_evolution(l, func, bounds, args=(), backwards=False, **kw):
    """The least value on a fine grid of the interval (a global minimizer, one variable)."""
    bounds = [[l.const(v) if hasattr(l, "const") else v for v in l.iterate(b)]
              for b in l.iterate(bounds)]
    if len(bounds) != 1 or not all(T.is_num(v) for v in bounds[0]):
        raise Unsupported("minimum over several variables or unknown bounds")
    lo, hi = (float(v) for v in bounds[0])
    best = None
    for i in range(GRID + 1)[::-1 if backwards else 1]:
        x = to_arr((lo + (hi - lo) * i / GRID,))
        v = l.resolve(l.call(func, (x, *args), {}))
        v = simplify0(v) if isinstance(v, Arr) else v
        if isinstance(v, Arr) and v.data.size == 1:
            v = v.data.flat[0]
        if not T.is_num(v):
            raise Unsupported("minimum of a function of unknown values")
        if best is None or v < best[0]:
            best = v, x
    return {"fun": best[0], "x": best[1], "success": True}


GRID = 241      # prime: no factor lands on half a cell, where roundings disagree


TABLE = {
    "scipy.optimize.differential_evolution": differential_evolution,
    **{f"scipy.sparse.{k}_{t}": sparse_matrix for k in ("lil", "csr", "csc", "dok")
       for t in ("matrix", "array")},
    **{f"scipy.ndimage.{pre}{n}": cellwise(n, same_shape) for pre in ("", "filters.")
       for n in ("maximum_filter", "gaussian_filter", "minimum_filter", "median_filter",
                 "uniform_filter")},
    **{f"scipy.ndimage.{pre}median_filter": median_filter for pre in ("", "filters.")},
    **{f"scipy.ndimage.{pre}{n}_filter": fn for pre in ("", "filters.") for n, fn in (
        ("gaussian", gaussian_filter), ("maximum", extreme_filter("max2")),
        ("minimum", extreme_filter("min2")))},
    "cv2.matchTemplate": match_template,
    "typing.cast": lambda l, typ, val: val,
    "scipy.ndimage.zoom": cellwise("zoom", zoomed),
    "matplotlib.colors.LightSource": light_source,
    "scipy.interpolate.RegularGridInterpolator": regular_grid,
    "scipy.interpolate.interp1d": interp1d,
    "scipy.interpolate.RectBivariateSpline": bivariate_spline,
}
