"""Abstract semantics of builtins and of the numpy functions the repository uses."""
import ast
import inspect
import math
import re

import numpy as np

from .. import model
from . import decide, scipymod
from . import term as T
from .value import (Arr, Bound, ClassRef, Closure, DefaultV, Ext, ExtM, FuncRef, Gate,
                    Native, Obj, Opq, Sel, SetV, ShapeError, Unsupported, broadcast_dims,
                    concat, elementwise, full, is_scalar, kind_of, merge, obj_array, promote, simplify0,
                    stack, to_arr)

CONST = {
    "nan": float("nan"), "NaN": float("nan"), "inf": float("inf"), "pi": math.pi,
    "e": math.e, "newaxis": None, "Inf": float("inf"),
}
UFUNC1 = {
    "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "arcsin",
    "arccos": "arccos", "arctan": "arctan", "exp": "exp", "log": "log", "log2": "log2",
    "log10": "log10", "floor": "floor", "ceil": "ceil", "rint": "rint", "abs": "abs",
    "absolute": "abs", "fabs": "abs", "negative": "neg", "sign": "sign",
    "trunc": "trunc", "asin": "arcsin", "acos": "arccos", "atan": "arctan",
    "fix": "trunc",
}
UFUNC2 = {
    "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div",
    "true_divide": "div", "power": "pow", "mod": "mod", "remainder": "mod",
    "floor_divide": "floordiv", "minimum": "min2", "maximum": "max2",
    "arctan2": "arctan2", "atan2": "arctan2", "fmod": "mod",
}
CMP2 = {"less": ("lt", 0), "less_equal": ("le", 0), "greater": ("lt", 1),
        "greater_equal": ("le", 1), "equal": ("eq", 0), "not_equal": ("ne", 0)}
METHODS = {
    "copy", "astype", "reshape", "sum", "mean", "min", "max", "any", "all", "dot",
    "ravel", "flatten", "transpose", "squeeze", "fill", "cumsum", "append", "extend",
    "items", "keys", "values", "get", "update", "total_seconds", "item", "tolist",
    "index", "strftime", "replace", "read", "write", "sample", "predicted", "observed",
    "std", "var", "argmin", "argmax", "nonzero", "round", "pop", "insert", "sort",
    "split", "join", "format", "lower", "upper", "strip", "count", "startswith",
    "endswith", "clip", "prod", "repeat", "isoformat", "timestamp", "find", "findall",
}
IMPURE = {"append", "extend", "update", "sort", "fill", "pop", "insert", "remove", "add",
          "clear", "setdefault", "popitem", "reverse", "write", "discard"}
SHAPED = {"asarray", "array"}


# -- basic helpers ---------------------------------------------------------------
def arr(l, v):
    v = l.resolve(v)
    if isinstance(v, Opq):
        raise OpqArg()
    if isinstance(v, (list, tuple)) and any(isinstance(x, Opq) for x in flat(v)):
        raise OpqArg()
    if isinstance(v, Gate):
        raise Unsupported("gated array")
    if isinstance(v, (str, dict, Obj)):
        raise Unsupported(f"array from {type(v).__name__}")
    if isinstance(v, range):
        v = list(v)
    return to_arr(v)


def flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    else:
        yield v


class OpqArg(Exception):
    """An argument has unknown shape: the result is an uninterpreted value."""


def ext_const(dotted):
    mod, _, name = dotted.rpartition(".")
    if mod in ("numpy", "np", "math") and name in CONST:
        return CONST[name]
    return EXT_CONST[dotted] if dotted in EXT_CONST else Ext(dotted)


def np_isclose(l, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if equal_nan is not False:
        raise OpqArg()

    def close(x, y, r, t):
        if T.is_num(x) and T.is_num(y) and T.is_num(r) and T.is_num(t):
            return bool(np.isclose(x, y, rtol=r, atol=t))
        return T.app("le", T.app("abs", T.sub(x, y)), T.add(t, T.mul(r, T.app("abs", y))))
    r = elementwise(close, arr(l, a), arr(l, b), l.resolve(rtol), l.resolve(atol), kind="b")
    return simplify0(r)


class Cross(tuple):
    """The cross index of booleans of unknown value."""

    def __new__(cls, masks):
        o = super().__new__(cls, [Opq(T.opaque("crossindex", ())) for _ in masks])
        o.masks = masks
        return o

    def mask(self):
        """Whether each element is selected."""
        out = obj_array(tuple(a.data.shape[0] for a in self.masks))
        for k in np.ndindex(*out.shape):
            out[k] = T.land(*(a.data[i] for a, i in zip(self.masks, k)))
        return Arr(out, tuple(a.dims[0] for a in self.masks), "b")


def np_ix_(l, *seqs):
    """Index arrays of a grid of rows and columns."""
    out = []
    masks = [arr(l, v) for v in seqs]
    if any(a.kind == "b" and not l.const_mask(a) for a in masks):
        if all(a.kind == "b" and a.ndim == 1 for a in masks):
            return Cross(masks)
        raise Unsupported("cross index of booleans")
    for k, v in enumerate(seqs):
        a = arr(l, v)
        if a.ndim != 1:
            raise l_pyerr("ValueError: cross index must be 1 dimensional")
        if a.kind == "b":
            a = to_arr([i for i, x in enumerate(a.data) if x])
            a.kind = "i"
        shape = [1] * len(seqs)
        shape[k] = a.data.shape[0]
        dims = [1] * len(seqs)
        dims[k] = a.dims[0]
        out.append(Arr(a.data.reshape(shape), tuple(dims), "i"))
    return tuple(out)


EXT_CONST = {}      # values of other constants


def selection(k):
    """The mask that an array of row numbers stands for, or the array."""
    if k.ndim == 1 and k.data.size == 1 and k.kind == "i":
        d, x = k.dims[0], k.data[0]
        if isinstance(d, T.Dim) and d.base is not None and d.base.base is None and \
                x is T.rowindex(d.base):
            m = obj_array((1,))
            m[0] = d.mask
            return Arr(m, (d.base,), "b")
    return k


def as_index(l, k):
    k = l.resolve(k)
    if isinstance(k, (list, tuple)):
        a = arr_or_unsup(l, k)
        if a.kind is None and all(T.is_boolean(x) for x in a.data.flat):
            a.kind = "b"
        return a
    if isinstance(k, range):
        return to_arr(list(k))
    if isinstance(k, Arr):
        if k.ndim == 0:
            return k.data[()]
        if k.kind is None and k.data.size and all(T.is_boolean(x) for x in k.data.flat):
            k = Arr(k.data, k.dims, "b")
        return selection(k)
    if isinstance(k, bool):
        raise Unsupported("scalar boolean index")
    if isinstance(k, float):
        raise Unsupported("float index")
    if T.is_boolean(k):
        raise Unsupported("scalar boolean index")
    if isinstance(k, Opq):
        raise Unsupported("opaque index")
    if isinstance(k, Gate):
        raise Unsupported("gated index")
    return k


def arr_or_unsup(l, v):
    try:
        return arr(l, v)
    except OpqArg:
        raise Unsupported("opaque element")


def const_int(n):
    """The integer that a scalar term has at every interpretation, else the term."""
    if isinstance(n, T.Node) and not n.dims and not T.is_opaque(n) and \
            n.op != "dimlen":
        k = decide.constant(n)
        if isinstance(k, int):
            return int(k)
    return n


def dim_of_len(n):
    """Dim whose length is term n, or n itself when concrete."""
    if isinstance(n, bool):
        raise Unsupported("boolean dimension")
    if isinstance(n, int):
        return n
    if isinstance(n, float) and n == int(n):
        return int(n)
    n = const_int(n)
    if isinstance(n, int):
        return n
    if isinstance(n, T.Node):
        if n.op == "dimlen":
            return n.attr
        if n.op == "trunc":
            return dim_of_len(n.args[0])
        for d in list(T.Dim._all.values()):
            if d.base is not None and T.dimlen(d) is n:
                return d
        return T.dim_len(n)
    raise Unsupported("dimension")


def length(l, v):
    v = l.resolve(v)
    if isinstance(v, (list, tuple, dict, str, range)):
        return len(v)
    if isinstance(v, Arr):
        if not v.ndim:
            raise l_pyerr("TypeError: len() of unsized object")
        return dlen(v.dims[0])
    if isinstance(v, Opq):
        return T.opaque("len", (v.node,))
    if isinstance(v, Obj) and isinstance(v.cls, model.Class):
        f = v.cls.find("__len__")
        if f is not None:
            return l.call_func(f, [], {}, v)
    if isinstance(v, Gate):
        return l.lift_gates(lambda x: length(l, x), v)
    if is_scalar(v) or v is None:
        raise l_pyerr("TypeError: object has no len()")
    raise Unsupported("len")


def l_pyerr(msg):
    from .interp import PyError
    return PyError(msg)


def dlen(d):
    if isinstance(d, int):
        return d
    return T.dimlen(d)


def shape_of(a):
    return tuple(dlen(d) for d in a.dims)


def size_of(a):
    n = 1
    for d in a.dims:
        n = T.mul(n, dlen(d))
    return n


def cast_kind(l, a, dtype):
    """Array or scalar converted to a dtype value (Ext, str or None)."""
    k = dtype_kind(dtype)
    if k is None:
        if dtype is None:
            return a
        if isinstance(a, Arr):
            return Arr(a.data.copy(), a.dims, None)
        return a
    if k == "f":
        f = lambda x: T.ite(x, 1.0, 0.0) if T.is_boolean(x) else (  # noqa: E731
            float(x) if T.is_num(x) else x)
    elif k == "i":
        f = lambda x: (T.ite(x, 1, 0) if T.is_boolean(x) else  # noqa: E731
                       T.app("trunc", x))
    elif k == "b":
        f = lambda x: x if T.is_boolean(x) else T.app("bool", x)  # noqa: E731
    else:
        return a
    r = elementwise(f, a)
    if isinstance(r, Arr):
        r.kind = k
        if r is a:
            r = r.copy()
    return r


def dtype_kind(dtype):
    if dtype is None:
        return None
    n = dtype.name if isinstance(dtype, Ext) else dtype if isinstance(dtype, str) else ""
    n = n.rsplit(".", 1)[-1]
    if n.startswith("float") or n in ("f", "f8", "f4", "double", "floating"):
        return "f"
    if n.startswith(("int", "uint")) or n in ("i", "intp", "integer"):
        return "i"
    if n.startswith("bool"):
        return "b"
    if n == "object":
        return "o"
    return None


# -- reductions --------------------------------------------------------------------
def norm_axis(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (list, tuple)):
        axs = tuple(axis)
    else:
        axs = (axis,)
    out = []
    for x in axs:
        if not isinstance(x, int):
            raise Unsupported("symbolic axis")
        if not -a.ndim <= x < a.ndim:
            raise l_pyerr("AxisError: axis out of bounds")
        out.append(x % a.ndim)
    return tuple(sorted(out))


def fold(op, xs):
    if op == "sum":
        out = 0
        for x in xs:
            out = T.add(out, T.ite(x, 1, 0) if T.is_boolean(x) else x)
        return out
    if op == "prod":
        out = 1
        for x in xs:
            out = T.mul(out, x)
        return out
    if op in ("min", "max"):
        if not xs:
            raise l_pyerr("ValueError: zero-size reduction")
        out = xs[0]
        for x in xs[1:]:
            out = T.app(op + "2", out, x)
        return out
    if op == "any":
        return T.lor(*[x if T.is_boolean(x) else T.app("bool", x) for x in xs])
    if op == "all":
        return T.land(*[x if T.is_boolean(x) else T.app("bool", x) for x in xs])
    if op in ("nanargmin", "nanargmax"):
        if not xs:
            raise l_pyerr("ValueError: attempt to get argmax of an empty sequence")
        if all(T.is_num(x) and x != x for x in xs):
            raise l_pyerr("ValueError: All-NaN slice encountered")
        big = float("inf") if op == "nanargmin" else float("-inf")
        return fold(op[3:], [T.ite(T.app("isnan", x), big, x) for x in xs])
    if op in ("argmin", "argmax") and not xs:
        raise l_pyerr("ValueError: attempt to get argmax of an empty sequence")
    if op in ("argmin", "argmax"):
        best, idx = xs[0], 0
        gaps = any(T.is_num(x) and x != x for x in xs)
        for i, x in enumerate(xs[1:], 1):
            c = T.app("lt", x, best) if op == "argmin" else T.app("lt", best, x)
            if gaps:        # a missing value is the extreme one
                c = T.land(T.lnot(T.app("isnan", best)), T.lor(c, T.app("isnan", x)))
            idx = T.ite(c, i, idx)
            best = T.ite(c, x, best)
        return idx
    if op in ("nansum",):
        out = 0
        for x in xs:
            out = T.add(out, T.ite(T.app("isnan", x), 0, x))
        return out
    if op in ("nanmin", "nanmax"):
        big = float("inf") if op == "nanmin" else float("-inf")
        ys = [T.ite(T.app("isnan", x), big, x) for x in xs]
        r = fold(op[3:], ys)
        return T.ite(T.land(*[T.app("isnan", x) for x in xs]), float("nan"), r)
    raise Unsupported(f"reduction {op}")


SYMRED = {"sum": "rsum", "prod": "rprod", "min": "rmin", "max": "rmax", "any": "rany",
          "all": "rall", "argmin": "rargmin", "argmax": "rargmax", "nansum": "rnansum",
          "nanmin": "rnanmin", "nanmax": "rnanmax", "nanmean": "rnanmean",
          "median": "rmedian"}


def reduce_axis(a, op, ax):
    d = a.dims[ax]
    rest = a.dims[:ax] + a.dims[ax + 1:]
    moved = np.moveaxis(a.data, ax, 0)
    shape = moved.shape[1:]
    out = obj_array(shape)
    for idx in np.ndindex(*shape):
        xs = [moved[(i,) + idx] for i in range(moved.shape[0])]
        if isinstance(d, int):
            if op in ("mean", "nanmean"):
                if op == "nanmean":
                    n = fold("sum", [T.ite(T.app("isnan", x), 0, 1) for x in xs])
                    v = T.div(fold("nansum", xs), n)
                else:
                    v = T.div(fold("sum", xs), d)
            elif op == "median":
                v = T.median(xs)
            else:
                v = fold(op, xs)
        else:
            x = xs[0]
            if op in ("any", "all") and not T.is_boolean(x):
                x = T.app("bool", x)
            if op in ("sum", "mean") and T.is_boolean(x):
                x = T.ite(x, 1, 0)
            if op == "mean":
                v = T.div(T.reduce("rsum", d, x), dlen(d))
            elif op not in SYMRED:
                raise Unsupported(f"reduction {op} along a symbolic dimension")
            else:
                v = T.reduce(SYMRED[op], d, x)
        out[idx] = v
    k = "b" if op in ("any", "all") else ("i" if "arg" in op else (
        "f" if op in ("mean", "nanmean", "median") else (
            "i" if a.kind in ("b", "i") else a.kind)))
    return Arr(out, rest, k)


def reduce_arr(l, a, op, axis=None, keepdims=False):
    axs = norm_axis(a, axis)
    if op in ("argmin", "argmax", "median", "nanmean") and len(axs) > 1:
        if axis is None and op in ("argmin", "argmax"):
            if not all(isinstance(d, int) for d in a.dims):
                raise Unsupported("flat argmin/argmax")
            return fold(op, list(a.data.flat))
        if op in ("median", "nanmean"):
            raise Unsupported(f"{op} over several axes")
    if op == "mean" and len(axs) != 1:
        n = 1
        for x in axs:
            n = T.mul(n, dlen(a.dims[x]))
        s = reduce_arr(l, a, "sum", axis, keepdims)
        r = elementwise(lambda x: T.div(x, n), s)
        if isinstance(r, Arr):
            r.kind = "f"
        return r
    out = a
    for x in reversed(axs):
        out = reduce_axis(out, op, x)
    if keepdims:
        for x in axs:
            out = Arr(np.expand_dims(out.data, x), out.dims[:x] + (1,) + out.dims[x:],
                      out.kind)
        return out
    return simplify0(out)


def std(l, a, axis=None, ddof=0, var=False):
    axs = norm_axis(a, axis)
    m = reduce_arr(l, a, "mean", axis, keepdims=True)
    d2 = elementwise(lambda x, y: T.mul(T.sub(x, y), T.sub(x, y)), a, m)
    s = reduce_arr(l, to_arr(d2), "sum", axis)
    n = 1
    for x in axs:
        n = T.mul(n, dlen(a.dims[x]))
    n = T.sub(n, ddof)
    r = elementwise(lambda x: T.div(x, n), s)
    return r if var else elementwise(lambda x: T.app("sqrt", x), r)


def cum(l, a, op, axis=None):
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flattened cumulative operation")
        axis = 0
    axis = norm_axis(a, axis)[0]
    d = a.dims[axis]
    data = a.data.copy()
    moved = np.moveaxis(data, axis, 0)
    for idx in np.ndindex(*moved.shape[1:]):
        if isinstance(d, int):
            for i in range(1, d):
                moved[(i,) + idx] = T.app("add" if op == "cumsum" else "mul",
                                          moved[(i - 1,) + idx], moved[(i,) + idx])
        else:
            moved[(0,) + idx] = T.reduce("r" + op, d, moved[(0,) + idx])
    return Arr(data, a.dims, "i" if a.kind == "b" else a.kind)


# -- linear algebra ---------------------------------------------------------------
def np_matmul(l, a, b):
    """Matrix product, over stacks of matrices."""
    x, y = l.resolve(a), l.resolve(b)
    if not (isinstance(x, Arr) and isinstance(y, Arr) and max(x.ndim, y.ndim) > 2
            and min(x.ndim, y.ndim) > 0):
        return matmul(l, a, b)
    if not all(isinstance(d, int) for d in x.dims + y.dims):
        raise Unsupported("stacked matmul")
    xd, yd = x.data, y.data
    xd = xd[None, :] if x.ndim == 1 else xd
    yd = yd[:, None] if y.ndim == 1 else yd
    if xd.shape[-1] != yd.shape[-2]:
        raise ShapeError(f"matmul of {x.dims} and {y.dims}")
    try:
        lead = np.broadcast_shapes(xd.shape[:-2], yd.shape[:-2])
    except ValueError:
        raise ShapeError(f"matmul of {x.dims} and {y.dims}")
    xd = np.broadcast_to(xd, lead + xd.shape[-2:])
    yd = np.broadcast_to(yd, lead + yd.shape[-2:])
    out = obj_array(lead + (xd.shape[-2], yd.shape[-1]))
    for i in np.ndindex(*out.shape):
        v = 0
        for k in range(xd.shape[-1]):
            v = T.add(v, T.mul(xd[i[:-1] + (k,)], yd[i[:-2] + (k, i[-1])]))
        out[i] = v
    if x.ndim == 1:
        out = out[..., 0, :]
    if y.ndim == 1:
        out = out[..., 0]
    return Arr(out, out.shape, promote(x.kind, y.kind))


def matmul(l, a, b):
    try:
        a, b = arr(l, a), arr(l, b)
    except OpqArg:
        return Opq(T.opaque("matmul", (l.termify(a), l.termify(b))))
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(lambda x, y: T.mul(x, y), a, b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("stacked matmul")
    a2 = a if a.ndim == 2 else Arr(a.data[None, :], (1,) + a.dims, a.kind)
    b2 = b if b.ndim == 2 else Arr(b.data[:, None], b.dims + (1,), b.kind)
    da, db = a2.dims[1], b2.dims[0]
    if not (da is db or da == db):
        if not isinstance(da, int) and not isinstance(db, int):
            raise Unsupported("product over different dimensions")
        raise l_pyerr("ValueError: matmul dimension mismatch")
    if isinstance(a2.dims[0], T.Dim) and a2.dims[0] is b2.dims[1]:
        raise Unsupported("outer product over one symbolic dimension")
    n, m = a2.data.shape[0], b2.data.shape[1]
    out = obj_array((n, m))
    for i in range(n):
        for j in range(m):
            if isinstance(da, int):
                s = 0
                for k in range(da):
                    s = T.add(s, T.mul(a2.data[i, k], b2.data[k, j]))
            else:
                s = T.reduce("rsum", da, T.mul(a2.data[i, 0], b2.data[0, j]))
            out[i, j] = s
    dims = (a2.dims[0], b2.dims[1])
    r = Arr(out, dims, promote(a.kind, b.kind))
    if a.ndim == 1:
        r = Arr(r.data[0], r.dims[1:], r.kind)
    if b.ndim == 1:
        r = Arr(r.data[..., 0], r.dims[:-1], r.kind)
    return simplify0(r)


# -- shapes ------------------------------------------------------------------------
def reshape(l, a, shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    shape = [l.resolve(s) for s in shape]
    if any(isinstance(s, (Opq, Gate, Arr)) for s in shape):
        raise Unsupported("reshape to unknown shape")
    dims = [-1 if s == -1 and not isinstance(s, T.Node) else dim_of_len(s)
            for s in shape]
    if all(isinstance(d, int) for d in a.dims):
        if any(isinstance(d, T.Dim) for d in dims):
            raise Unsupported("reshape to a symbolic dimension")
        try:
            data = a.data.reshape(dims)
        except ValueError:
            raise l_pyerr("ValueError: cannot reshape")
        return Arr(data, data.shape, a.kind)
    # symbolic dimensions: only insertion or removal of unit axes, or same dims
    src = [d for d in a.dims if not (isinstance(d, int) and d == 1)]
    if -1 in dims:
        known = [d for d in dims if not (isinstance(d, int) and d in (1, -1))]
        rest = list(src)
        for d in known:
            for i, x in enumerate(rest):
                if x is d or (isinstance(x, int) and isinstance(d, int) and x == d):
                    rest.pop(i)
                    break
            else:
                raise Unsupported("reshape of symbolic dimensions")
        if len(rest) == 0:
            dims[dims.index(-1)] = 1
        elif len(rest) == 1:
            dims[dims.index(-1)] = rest[0]
        else:
            if len(shape) == 1:
                return ravel(l, a)
            raise Unsupported("reshape of symbolic dimensions")
    dst = [d for d in dims if not (isinstance(d, int) and d == 1)]
    if len(src) != len(dst) or any(not (x is y or x == y) for x, y in zip(src, dst)):
        raise Unsupported("reshape of symbolic dimensions")
    data = a.data.reshape([d if isinstance(d, int) else 1 for d in dims])
    return Arr(data, dims, a.kind)


def ravel(l, a):
    if a.ndim == 1:
        return a
    if all(isinstance(d, int) for d in a.dims):
        d = a.data.reshape(-1)
        return Arr(d, d.shape, a.kind)
    big = [d for d in a.dims if not (isinstance(d, int) and d == 1)]
    if len(big) == 1:
        return Arr(a.data.reshape(-1), (big[0],), a.kind)
    raise Unsupported("ravel of symbolic dimensions")


def transpose(a, axes=None):
    if axes is None:
        axes = tuple(reversed(range(a.ndim)))
    return Arr(np.transpose(a.data, axes), tuple(a.dims[i] for i in axes), a.kind)


def squeeze(a, axis=None):
    axs = [i for i, d in enumerate(a.dims) if isinstance(d, int) and d == 1] \
        if axis is None else norm_axis(a, axis)
    if any(isinstance(a.dims[k], int) and a.dims[k] != 1 for k in axs):
        raise l_pyerr("ValueError: cannot select an axis to squeeze out")
    data = np.squeeze(a.data, axis=tuple(axs)) if axs else a.data
    if not isinstance(data, np.ndarray):
        x = obj_array(())
        x[()] = data
        data = x
    return Arr(data, tuple(d for i, d in enumerate(a.dims) if i not in axs), a.kind)


def at_least(a, n):
    if n == 1 and a.ndim == 0:
        return Arr(a.data.reshape(1), (1,), a.kind)
    if n == 3:
        if a.ndim == 2:
            return Arr(a.data[:, :, None], a.dims + (1,), a.kind)
        if a.ndim < 2:
            a = at_least(a, 2)
            return Arr(a.data[:, :, None], a.dims + (1,), a.kind)
    if n == 2:
        if a.ndim == 0:
            return Arr(a.data.reshape(1, 1), (1, 1), a.kind)
        if a.ndim == 1:
            return Arr(a.data[None, :], (1,) + a.dims, a.kind)
    return a


def diff(l, a, axis=-1):
    ax = norm_axis(a, axis)[0]
    pre = [slice(None)] * ax
    hi = l.arr_get(a, tuple(pre + [slice(1, None)]))
    lo = l.arr_get(a, tuple(pre + [slice(None, -1)]))
    if isinstance(a.dims[ax], T.Dim):
        hd = T.Dim._all[("cut", a.dims[ax], 1)]
        hi = Arr(hi.data, hi.dims[:ax] + (hd,) + hi.dims[ax + 1:], hi.kind)
        lo = Arr(lo.data, lo.dims[:ax] + (hd,) + lo.dims[ax + 1:], lo.kind)
    return elementwise(lambda x, y: T.sub(x, y), hi, lo)


def shape_arg(l, s):
    s = l.resolve(s)
    if isinstance(s, Arr):
        s = [x for x in s.data.flat]
    if not isinstance(s, (list, tuple)):
        s = (s,)
    if any(isinstance(x, (Opq, Gate)) for x in s):
        raise Unsupported("array of unknown shape")
    if any(x is None or isinstance(x, (float, str)) for x in s):
        raise l_pyerr("TypeError: the shape of an array is of integers")
    return tuple(dim_of_len(x) for x in s)


def linspace(l, start, stop, num=50, endpoint=True, dtype=None):
    a, b, n = start, stop, num
    a, b = l.resolve(a), l.resolve(b)
    if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(n, Opq):
        raise OpqArg()
    if isinstance(a, Arr) or isinstance(b, Arr):
        raise Unsupported("linspace of arrays")
    d = dim_of_len(n)
    ln = dlen(d)
    div = T.sub(ln, 1) if endpoint else ln
    step = T.div(T.sub(b, a), div)
    if isinstance(d, int):
        if d == 1:
            return to_arr([a])
        xs = [T.add(a, T.mul(i, step)) for i in range(d)]
        return to_arr(xs) if xs else Arr(obj_array((0,)), (0,), "f")
    r = T.add(a, T.mul(T.rowindex(d), step))
    x = obj_array((1,))
    x[0] = T.ite(T.app("eq", ln, 1), a, r)
    return Arr(x, (d,), "f")


def arange(l, args, kw):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    else:
        lo, hi = args[0], args[1]
        st = args[2] if len(args) > 2 else kw.get("step", 1)
    lo, hi, st = l.resolve(lo), l.resolve(hi), l.resolve(st)
    if all(T.is_num(x) for x in (lo, hi, st)):
        try:
            xs = np.arange(lo, hi, st)
        except (ValueError, ZeroDivisionError) as e:
            from .interp import PyError
            raise PyError(f"{type(e).__name__}: {e}")
        if len(xs) > 512:
            raise Unsupported("long arange")
        return to_arr([x.item() for x in xs]) if len(xs) else Arr(
            obj_array((0,)), (0,), "i")
    if T.is_num(st) and st == 1 and isinstance(hi, T.Node):
        d = dim_of_len(T.sub(hi, lo) if lo != 0 else hi)
        if isinstance(d, T.Dim):
            x = obj_array((1,))
            x[0] = T.add(T.rowindex(d), lo) if not (T.is_num(lo) and lo == 0) \
                else T.rowindex(d)
            return Arr(x, (d,), "i")
    n = l.number(T.app("ceil", T.div(T.sub(hi, lo), st)))
    if T.is_num(n) and 0 <= n <= 512:
        return to_arr([T.add(lo, T.mul(i, st)) for i in range(int(n))])
    raise Unsupported("arange")


def draw(l, what, dims, extra=()):
    l.rand += 1
    name = f"draw{l.rand}:{what}"
    dims = tuple(dims)
    from .value import sym_array
    a = sym_array(name, dims)
    a.kind = "f"
    l.draws.append((what, dims, extra, a))
    return simplify0(a)


# -- attributes ---------------------------------------------------------------------
def arr_attr(l, a, attr):
    if attr == "shape":
        return shape_of(a)
    if attr == "ndim":
        return a.ndim
    if attr == "size":
        return size_of(a)
    if attr == "T":
        return transpose(a)
    if attr == "dtype":
        return Ext({"f": "numpy.float64", "i": "numpy.int64", "b": "numpy.bool_"}[
            a.kind]) if a.kind in ("f", "i", "b") else Opq(T.opaque("dtype"))
    if attr == "flat":
        return ravel(l, a)
    if attr == "real":
        return a
    return NotImplemented


def scalar_attr(l, v, attr):
    if attr in ("T", "real"):
        return v
    if attr == "ndim":
        return 0
    if attr == "size":
        return 1
    if attr == "shape":
        return ()
    if attr == "days":
        return T.app("floor", T.div(v, 86400))
    if attr == "seconds":
        return T.app("floor", T.app("mod", v, 86400))
    if attr == "microseconds":
        return T.mul(1000000, T.app("mod", v, 1))
    if attr == "dtype":
        return Ext("numpy.float64")
    return NotImplemented


def is_method_name(attr):
    return attr in METHODS


# -- external calls ---------------------------------------------------------------------
def opaque_call(l, name, args, kwargs):
    ts = tuple(l.termify(a) for a in args) + tuple(
        l.termify(v) for _, v in sorted(kwargs.items()))
    kw = "".join("," + k for k in sorted(kwargs))
    return Opq(T.opaque(name + kw, ts))


def call_ext(l, name, args, kwargs):
    args = [l.resolve(a) for a in args]
    kwargs = {k: l.resolve(v) for k, v in kwargs.items()}
    if name.startswith("builtins."):
        f = BUILTIN.get(name[9:])
        if f is not None:
            try:
                return f(l, *args, **kwargs)
            except OpqArg:
                return opaque_call(l, name, args, kwargs)
        if name[9:].endswith(("Error", "Warning", "Exception")):
            return Obj(name[9:])
        return opaque_call(l, name, args, kwargs)
    gated = [i for i, a in enumerate(args) if isinstance(a, Gate)]
    if gated:
        return l.lift_gates(lambda *a: call_ext(l, name, list(a), kwargs), *args)
    for k, v in kwargs.items():
        if isinstance(v, Gate):
            return l.lift_gates(
                lambda x, k=k: call_ext(l, name, args, {**kwargs, k: x}), v)
    if name.startswith("numpy.math."):
        name = name[6:]
    short = name.split(".", 1)[1] if "." in name else name
    f = None
    if name.startswith(("numpy.", "math.")):
        f = NP.get(short)
        if f is None and short in UFUNC1:
            def f(l, x, **kw):
                return ufunc(l, UFUNC1[short], [x], kw)
        elif f is None and short in UFUNC2:
            def f(l, x, y, **kw):
                return ufunc(l, UFUNC2[short], [x, y], kw)
        elif f is None and short in CMP2:
            def f(l, x, y, **kw):
                o, sw = CMP2[short]
                if (x is None or y is None) and o in ("eq", "ne"):
                    return against_none(o, y if x is None else x)
                xs = [arr_s(l, x), arr_s(l, y)]
                if sw:
                    xs.reverse()
                return elementwise(lambda p, q: T.app(o, p, q), *xs, kind="b")
        elif f is None and short.startswith(("float", "int", "uint", "bool")):
            def f(l, x):
                return cast_kind(l, arr_s(l, x), Ext(name))
    elif name.startswith("numpy.random."):
        f = None
    else:
        f = OTHER.get(name)
    if f is None:
        return opaque_call(l, name, args, kwargs)
    try:
        return f(l, *args, **kwargs)
    except OpqArg:
        return opaque_call(l, name, args, kwargs)
    except TypeError as e:
        if lacks_argument(name, args, kwargs):
            raise l_pyerr(f"TypeError: missing argument of {name}")
        raise Unsupported(f"arguments of {name}: {e}")


def lacks_argument(name, args, kwargs):
    """Whether an argument is missing that the library requires."""
    if not name.startswith("numpy."):
        return False
    f = np
    for part in name.split(".")[1:]:
        f = getattr(f, part, None)
    try:
        inspect.signature(f).bind(*args, **kwargs)
    except TypeError as e:
        return "missing a required" in str(e)
    except ValueError:
        pass
    return False


def against_none(o, v):
    """Elementwise comparison with None."""
    if v is None:
        return o == "eq"
    if isinstance(v, Arr):
        out = obj_array(v.data.shape)
        for i in np.ndindex(*out.shape):
            out[i] = (v.data[i] is None) == (o == "eq")
        return Arr(out, v.dims, "b")
    if is_scalar(v):
        return o == "ne"
    raise OpqArg()


def arr_s(l, v):
    """Array or scalar."""
    v = l.resolve(v)
    return v if is_scalar(v) or isinstance(v, Sel) else simplify0(arr(l, v))


def ufunc(l, op, xs, kw):
    if isinstance(kw.get("out"), Arr):
        raise Unsupported("out= argument")
    vals = [arr_s(l, x) for x in xs]
    r = elementwise(lambda *a: T.app(op, *a), *vals)
    if isinstance(r, Arr) and op not in ("add", "sub", "mul", "neg", "abs", "min2",
                                         "max2", "mod", "sign", "floordiv"):
        r.kind = "f"
    return r


def _isinstance(l, v, t):
    ts = list(t) if isinstance(t, (tuple, list)) else [t]
    out = False
    for x in ts:
        out = T.lor(out, _isinst1(l, v, x))
    return out


def _isinst1(l, v, t):
    if isinstance(v, Gate):
        return T.ite(v.cond, _isinst1(l, v.a, t), _isinst1(l, v.b, t))
    if isinstance(t, ClassRef):
        if isinstance(v, Obj):
            if isinstance(v.cls, model.Class):
                return t.cls in v.cls.mro()
            return False
        if isinstance(v, Opq):
            return T.app("bool", T.opaque("isinstance:" + t.cls.qualname, (v.node,)))
        return False
    if isinstance(t, (str, dict, list, Arr)) or is_scalar(t) or t is None:
        raise l_pyerr("TypeError: isinstance() arg 2 must be a type")
    if not isinstance(t, Ext):
        raise Unsupported("isinstance")
    n = t.name
    if isinstance(v, Opq):
        return T.app("bool", T.opaque("isinstance:" + n, (v.node,)))
    s = n.rsplit(".", 1)[-1]
    if s == "ndarray":
        return isinstance(v, Arr)
    if s in ("str", "bytes"):
        return isinstance(v, str if s == "str" else bytes)
    if s in ("set", "frozenset"):
        return isinstance(v, SetV)
    if s == "list":
        return isinstance(v, list) and not isinstance(v, SetV)
    if s == "tuple":
        return isinstance(v, tuple)
    if s == "dict":
        return isinstance(v, dict)
    if s == "slice":
        return isinstance(v, slice)
    if s == "bool":
        return T.is_boolean(v) if is_scalar(v) else False
    if s in ("Iterable", "Sequence"):
        return isinstance(v, (list, tuple, str, dict, Arr, range))
    if s == "NoneType":
        return v is None
    if s in ("int", "integer", "Integral"):
        if isinstance(v, T.Node):
            if v.op == "sym" and "int" in str(v.attr[2]) or v.op in (
                    "dimlen", "rowindex"):
                return True
            return False
        return isinstance(v, int)
    if s in ("float", "floating", "float64"):
        if isinstance(v, T.Node):
            return not T.is_boolean(v) and _isinst1(l, v, Ext("int")) is False and \
                temporal(v) is None
        return isinstance(v, float)
    if s in ("number", "Number"):
        return is_scalar(v)
    if s in ("datetime", "date", "timedelta"):
        return isinstance(v, T.Node) and temporal(v) in (
            s, "time", "datetime" if s == "date" else s)
    if s == "object":
        return True
    if isinstance(v, Obj) and not isinstance(v.cls, model.Class):
        return v.cls == s
    return False


def temporal(v):
    """Whether a term is a date or a difference of dates."""
    if not isinstance(v, T.Node):
        return None
    if v.op == "sym":
        return v.attr[2] if v.attr[2] in ("time", "datetime", "timedelta") else None
    if v.op in ("add", "sub"):
        a, b = (temporal(x) for x in v.args)
        if a == b == "datetime":
            return "timedelta"
        return "datetime" if "datetime" in (a, b) else a or b
    if v.op in ("mul", "div", "neg", "abs", "mod") and "timedelta" in [
            temporal(x) for x in v.args]:
        return "timedelta"
    if v.op in ("ite", "min2", "max2"):
        return temporal(v.args[-1])
    return None


def _getattr(l, o, name, *default):
    if isinstance(name, Obj) or is_scalar(name) or name is None:
        raise l_pyerr("TypeError: attribute name must be string")
    if not isinstance(name, str):
        raise Unsupported("getattr of unknown name")
    from .interp import PyError
    if default:
        if not _hasattr(l, o, name):
            return default[0]
    try:
        return l.getattr(o, name)
    except PyError:
        if default:
            return default[0]
        raise


def _hasattr(l, o, name):
    o = l.resolve(o)
    if isinstance(o, Obj) and isinstance(o.cls, model.Class):
        if name in o.attrs or o.cls.find_attr(name) is not None:
            return True
        f = o.cls.find(name)
        if f is None:
            return False
        if not f.is_property:
            return True
        # a property exists unless its getter raises
        from .interp import PyError
        n, t = len(l.raises), len(l.taint)
        try:
            l.getattr(o, name)
        except PyError:
            ok = False
        else:
            ok = True
        del l.raises[n:]
        del l.taint[t:]
        return ok
    if isinstance(o, ClassRef):
        return o.cls.find(name) is not None or o.cls.find_attr(name) is not None
    if isinstance(o, Arr):
        return hasattr(np.ndarray, name)
    if isinstance(o, (list, tuple, dict, str)):
        return hasattr(type(o), name)
    if is_scalar(o) or o is None:
        return hasattr(float, name) if is_scalar(o) else False
    if isinstance(o, Opq):
        return T.app("bool", T.opaque("hasattr:" + name, (o.node,)))
    raise Unsupported("hasattr")


def _setattr(l, o, name, v):
    if not isinstance(name, str):
        raise Unsupported("setattr of unknown name")
    l.setattr(o, name, v)


def _min(l, *xs, op="min", key=None, default=None):
    if key is not None:
        raise Unsupported("min/max with key")
    if len(xs) == 1:
        v = xs[0]
        if isinstance(v, Arr) and v.ndim == 1 and not isinstance(v.dims[0], int):
            return reduce_arr(l, v, op)
        xs = l.iterate(v)
    xs = [l.resolve(x) for x in xs]
    if any(isinstance(x, Opq) for x in xs):
        raise OpqArg()
    if any(not is_scalar(x) for x in xs):
        if all(isinstance(x, str) for x in xs):
            return min(xs) if op == "min" else max(xs)
        if all(is_scalar(x) or isinstance(x, Arr) and x.data.size == 1 and all(
                d == 1 for d in x.dims) for x in xs):
            # the first of the extreme elements, as it is
            value = lambda x: x.data.flat[0] if isinstance(x, Arr) else x  # noqa: E731
            best = xs[0]
            for x in xs[1:]:
                a, b = value(x), value(best)
                less = T.app("lt", a, b) if op == "min" else T.app("lt", b, a)
                if not isinstance(less, bool):
                    raise Unsupported("min/max of arrays of unknown order")
                best = x if less else best
            return best
        raise Unsupported("min/max of non-scalars")
    return fold(op, list(xs))


def _sum(l, v, start=0):
    out = start
    if isinstance(v, Arr) and v.ndim and not isinstance(v.dims[0], int):
        r = reduce_arr(l, v, "sum", 0)
        return elementwise(lambda x: T.add(x, start), r)
    for x in l.iterate(v):
        x = l.resolve(x)
        if T.is_boolean(x) and is_scalar(x):
            x = T.ite(x, 1, 0)
        import ast as _ast
        out = l.binop(_ast.Add(), out, x)
    return out


class IterV(list):
    """What is left of an iterator."""


def _zip(l, *seqs):
    its = []
    n = None
    seqs = [l.resolve(s) for s in seqs]
    for s in seqs:
        its.append(l.iterate(s))
    if not its:
        return []
    if len({id(s) for s in seqs if isinstance(s, list)}) < len(seqs) == sum(
            isinstance(s, IterV) for s in seqs):
        # one iterator, several times
        if l.cond(l.base_pc) is not True:
            raise Unsupported("iterator advanced under a condition")
        out = []
        while True:
            row = []
            for s in seqs:
                if not s:
                    return out
                row.append(s.pop(0))
            out.append(tuple(row))
    n = min(len(i) for i in its)
    return [tuple(i[k] for i in its) for k in range(n)]


def _range(l, *a):
    a = [int(x) if isinstance(x, bool) else x for x in a]
    a = [l.number(const_int(x)) for x in a]
    a = [int(x) if isinstance(x, float) and x == int(x) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) in (2, 3):
        n = l.number(T.sub(a[1], a[0]))
        step = a[2] if len(a) == 3 else 1
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int) and isinstance(step, int) and step and abs(n) <= 128:
            return [T.add(a[0], k) for k in range(0, n, step)]
    raise Unsupported("range of unknown length")


def _sorted(l, v, key=None, reverse=False):
    xs = list(l.iterate(v))
    key = None if key is None else l.resolve(key)
    ks = [x if key is None else l.call(key, [x], {}) for x in xs]
    reverse = bool(l.known(l.truth(reverse)))
    ks = [tuple(k) if isinstance(k, (list, tuple)) else k for k in ks]
    ks = [k.data.reshape(-1)[0] if isinstance(k, Arr) and k.data.size == 1 else k
          for k in ks]
    if not all(isinstance(k, str) for k in ks):
        ks = [l.number(k) if is_scalar(k) else k for k in ks]
    plain = all(isinstance(k, str) for k in ks) or all(T.is_num(k) for k in ks) or all(
        isinstance(k, tuple) and all(T.is_num(x) for x in k) for k in ks) or all(
        isinstance(k, tuple) and all(isinstance(x, str) for x in k) for k in ks)
    first = [k[0] for k in ks if isinstance(k, tuple) and k]
    if not plain and len(first) == len(ks) == len(set(map(str, first))) and (
            all(isinstance(k, str) for k in first) or all(T.is_num(k) for k in first)) \
            and len(set(first)) == len(first):
        plain, ks = True, first
    if plain:
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return [xs[i] for i in order]
    if all(is_scalar(k) for k in ks):
        if reverse:
            ks = [T.neg(k) if hasattr(T, "neg") else T.mul(-1, k) for k in ks]
        o = decide.ordering(ks)
        if o is not None:
            return [xs[i] for i in o[0]]
    raise Unsupported("sorted")


def _int(l, v=0, *a):
    if isinstance(v, Arr):
        v = simplify0(v) if v.ndim == 0 or v.data.size != 1 else v.data.flat[0]
    if isinstance(v, str):
        from .textmod import numeral
        try:
            int(v, *a)
        except ValueError:
            raise l_pyerr("ValueError: invalid literal for int()")
        x = numeral(l, v) if not a else int(v, *a)
        return int(x) if T.is_num(x) else x
    if is_scalar(v):
        return T.ite(v, 1, 0) if T.is_boolean(v) else \
            l.number(T.app("trunc", v))
    if isinstance(v, Opq):
        return Opq(T.app("trunc", v.node))
    if v is None or isinstance(v, (dict, list, tuple)):
        raise l_pyerr("TypeError: not a number")
    raise Unsupported("int")


def _float(l, v=0.0):
    if isinstance(v, Arr) and v.data.size == 1 and all(
            isinstance(d, int) for d in v.dims):
        v = v.data.flat[0]
    if isinstance(v, str):
        from .textmod import numeral
        return numeral(l, v)
    if is_scalar(v):
        return float(v) if T.is_num(v) else v
    if isinstance(v, Opq):
        return v
    if v is None or isinstance(v, (dict, list, tuple)):
        raise l_pyerr("TypeError: not a number")
    raise Unsupported("float")


def _next(l, v, *default):
    """First of what is left of an iterator, which is a list of its own."""
    if not isinstance(v, list) or hasattr(v, "native_attr"):
        raise OpqArg
    if not v:
        if default:
            return default[0]
        raise l_pyerr("StopIteration")
    if l.cond(l.base_pc) is not True:
        raise Unsupported("iterator advanced under a condition")
    return v.pop(0)


def _list(l, v=()):
    return list(l.iterate(v))


def same_item(l, x, y):
    """Whether two set elements are equal: True, False or None (unknown)."""
    if isinstance(x, Obj) and isinstance(x.cls, model.Class) and \
            x.cls.find("__eq__") is None or isinstance(y, Obj) and isinstance(
                y.cls, model.Class) and y.cls.find("__eq__") is None:
        return x is y
    try:
        return l.known(l.truth(l.compare(ast.Eq(), x, y)))
    except Unsupported:
        return True if x is y else None


def make_set(l, v=()):
    """Set of distinct elements; a plain list where some may be equal."""
    out = []
    for x in l.iterate(v):
        ks = [same_item(l, x, y) for y in out]
        if True in ks:
            continue
        if None in ks:
            return list(l.iterate(v))
        out.append(x)
    return SetV(out)


def set_op(l, op, a, b):
    def has(x, s):
        ks = [same_item(l, x, y) for y in s]
        if True not in ks and None in ks:
            raise Unsupported("set elements that may be equal")
        return True in ks
    if op == "and":
        return SetV([x for x in a if has(x, b)])
    if op == "sub":
        return SetV([x for x in a if not has(x, b)])
    extra = [x for x in b if not has(x, a)]
    if op == "or":
        return SetV(list(a) + extra)
    return SetV([x for x in a if not has(x, b)] + extra)


SETM = {"intersection": "and", "difference": "sub", "union": "or",
        "symmetric_difference": "xor"}


def set_method(l, v, name, args, kw):
    if name in SETM:
        out = v
        for a in args:
            b = make_set(l, a)
            if not isinstance(b, SetV):
                raise Unsupported("set of elements that may be equal")
            out = set_op(l, SETM[name], out, b)
        return out
    if name in ("issubset", "isdisjoint", "issuperset"):
        b = make_set(l, args[0])
        if not isinstance(b, SetV):
            raise Unsupported("set of elements that may be equal")
        if name == "isdisjoint":
            return not set_op(l, "and", v, b)
        x, y = (v, b) if name == "issubset" else (b, v)
        return not set_op(l, "sub", x, y)
    guard_live(l)
    if name in ("add", "update"):
        out = set_op(l, "or", v, make_set(l, args[0] if name == "update" else args))
        v[:] = out
        return None
    if name in ("discard", "remove"):
        out = set_op(l, "sub", v, SetV(args))
        if name == "remove" and len(out) == len(v):
            from .interp import PyError
            raise PyError("KeyError: not in set")
        v[:] = out
        return None
    if name == "copy":
        return SetV(v)
    raise Unsupported(f"set method .{name}")


def _dict(l, *a, **kw):
    out = {}
    if a:
        if isinstance(a[0], dict):
            out.update(a[0])
        else:
            for x in l.iterate(a[0]):
                k, v = l.iterate(x, 2)
                out[k] = v
    out.update(kw)
    return out


def _type(l, v):
    if isinstance(v, Obj) and isinstance(v.cls, model.Class):
        return ClassRef(v.cls)
    if isinstance(v, Arr):
        return Ext("numpy.ndarray")
    if isinstance(v, bool):
        return Ext("builtins.bool")
    if isinstance(v, (str, bytes, list, tuple, dict, int, float)):
        return Ext("builtins." + type(v).__name__)
    if is_scalar(v) and not T.is_boolean(v):
        # of an unknown number: only good for making others
        return Native(lambda v=0: v)
    raise Unsupported("type()")


def _map(l, f, *seqs):
    return [l.call(f, list(x), {}) for x in _zip(l, *seqs)]


def _any(l, v):
    if isinstance(v, Opq):
        raise OpqArg()
    if isinstance(v, Arr) and v.ndim and not isinstance(v.dims[0], int):
        return reduce_arr(l, v, "any", 0)
    return T.lor(*[l.truth(x) for x in l.iterate(v)])


def _all(l, v):
    if isinstance(v, Opq):
        raise OpqArg()
    if isinstance(v, Arr) and v.ndim and not isinstance(v.dims[0], int):
        return reduce_arr(l, v, "all", 0)
    return T.land(*[l.truth(x) for x in l.iterate(v)])


def _abs(l, v):
    return ufunc(l, "abs", [v], {})


def combinatorial(fn):
    """Function of numbers known at analysis time."""
    def run(l, *args, **kw):
        args = [l.number(arr_s(l, a)) for a in args]
        kw = {k: v for k, v in kw.items() if k != "exact"}
        if not all(T.is_num(a) for a in args) or kw:
            raise OpqArg()
        return fn(*args)
    return run


def whole(fn):
    return combinatorial(lambda *a: fn(*(int(x) for x in a)))


def _round(l, v, n=0):
    if n in (0, None):
        return ufunc(l, "rint", [v], {})
    raise Unsupported("round to digits")


def _enumerate(l, v, start=0):
    return [(i + start, x) for i, x in enumerate(l.iterate(v))]


def _reversed(l, v):
    return list(reversed(l.iterate(v)))


def _bool(l, v=False):
    return l.truth(v)


def _str(l, v=""):
    if isinstance(v, str):
        return v
    if isinstance(v, (int, bytes)) or v is None:
        return str(v)
    if isinstance(v, (float, T.Node)):
        v = l.in_words(v)
        if isinstance(v, str):
            return v
    raise OpqArg()


def _callable(l, v):
    if isinstance(v, Opq):
        raise OpqArg()
    if isinstance(v, Obj) and isinstance(v.cls, model.Class):
        return v.cls.find("__call__") is not None
    return isinstance(v, (FuncRef, Bound, ClassRef, Closure, Native, ExtM, Ext))


NUMBERS = {"float64": np.float64, "float32": np.float32, "int64": np.int64,
           "int32": np.int32, "int16": np.int16, "int8": np.int8, "uint8": np.uint8,
           "uint16": np.uint16, "uint32": np.uint32, "bool_": np.bool_, "float": float,
           "int": int, "bool": bool, "floating": np.floating, "integer": np.integer,
           "signedinteger": np.signedinteger, "unsignedinteger": np.unsignedinteger,
           "number": np.number, "inexact": np.inexact, "generic": np.generic}


def _issubclass(l, a, b):
    """Subclasses of the types of numbers."""
    if isinstance(a, Obj) and a.cls == "dtype":
        raise OpqArg()
    bs = list(b) if isinstance(b, tuple) else [b]
    ts = [NUMBERS.get(x.name.rsplit(".", 1)[-1]) if isinstance(x, Ext) and x.name.startswith(
        ("numpy.", "builtins.")) else None for x in (a, *bs)]
    if None in ts:
        raise OpqArg()
    return issubclass(ts[0], tuple(ts[1:]))


BUILTIN = {
    "issubclass": _issubclass,
    "isinstance": _isinstance, "getattr": _getattr, "hasattr": _hasattr,
    "setattr": _setattr, "len": length, "min": _min,
    "max": lambda l, *x, **k: _min(l, *x, op="max", **k), "sum": _sum, "zip": _zip,
    "range": _range, "enumerate": _enumerate, "sorted": _sorted, "int": _int,
    "float": _float, "list": _list, "dict": _dict, "type": _type, "map": _map,
    "tuple": lambda l, v=(): tuple(l.iterate(v)), "set": make_set, "frozenset": make_set, "any": _any,
    "all": _all, "abs": _abs, "round": _round, "reversed": _reversed, "bool": _bool,
    "str": _str, "print": lambda l, *a, **k: None, "callable": _callable,
    "slice": lambda l, *a: slice(*a),
    "filter": lambda l, f, v: _filter(l, f, v),
    "iter": lambda l, v: v if isinstance(v, IterV) else IterV(l.iterate(v)), "next": _next,
}


def _filter(l, f, v):
    out = []
    for x in l.iterate(v):
        c = l.truth(x if f is None else l.call(f, [x], {}))
        k = l.known(c)
        if k is None:
            raise Unsupported("filter")
        if k:
            out.append(x)
    return out


# -- numpy -----------------------------------------------------------------------------
def np_array(l, v, dtype=None, copy=True, ndmin=0, order=None):
    v = l.resolve(v)
    if isinstance(v, Opq):
        return v
    if dtype is None and isinstance(v, (list, tuple)) and any(
            x is None or isinstance(x, (Obj, str)) for x in v):
        return objects(l, v)
    if isinstance(v, dict) and dtype_kind(dtype) in ("f", "i"):
        raise l_pyerr("TypeError: number from a dictionary")
    a = arr(l, v)
    if copy is not False or not isinstance(v, Arr):
        a = a.copy()
    if dtype is not None:
        a = to_arr(cast_kind(l, a, dtype))
    if ndmin == 2:
        a = at_least(a, 2)
    elif ndmin == 1:
        a = at_least(a, 1)
    return a


def objects(l, v):
    """One-dimensional array of objects."""
    v = [l.resolve(x) for x in v]
    if any(isinstance(x, (list, tuple, Arr, dict, Gate)) for x in v):
        raise Unsupported("array of objects and sequences")
    out = obj_array((len(v),))
    for i, x in enumerate(v):
        out[i] = x
    return Arr(out, (len(v),), "o")


def np_asarray(l, v, dtype=None, **kw):
    v = l.resolve(v)
    if isinstance(v, (Arr, Opq)) and dtype is None:
        return v
    if isinstance(v, Arr) and dtype_kind(dtype) is not None and \
            v.kind == dtype_kind(dtype):
        return v
    return np_array(l, v, dtype)


def np_full(l, shape, value, dtype=None):
    dims = shape_arg(l, shape)
    if value is None and dtype is None or isinstance(dtype, Ext) and \
            dtype.name == "builtins.object":
        return full(dims, l.resolve(value), "o")
    v = arr_s(l, value)
    if isinstance(v, Arr):
        out = full(dims, 0.0, v.kind)
        out.data[...] = np.broadcast_to(v.data, out.data.shape)
        return out
    k = dtype_kind(dtype) or kind_of(v)
    if k == "b" and not T.is_boolean(v):
        v = bool(v) if T.is_num(v) else T.app("bool", v)
    return full(dims, v, k)


def like(value):
    def f(l, a, dtype=None, **kw):
        a = arr(l, a)
        k = dtype_kind(dtype) or a.kind
        return full(a.dims, bool(value) if k == "b" else value, k)
    return f


def np_empty(l, shape, dtype=None):
    l.rand += 1
    return full(shape_arg(l, shape), T.opaque(f"uninitialised{l.rand}"),
                dtype_kind(dtype) or "f")


def np_empty_like(l, a, dtype=None, **kw):
    a = arr(l, a)
    l.rand += 1
    return full(a.dims, T.opaque(f"uninitialised{l.rand}"), dtype_kind(dtype) or a.kind)


def np_where(l, c, *ab):
    if not ab:
        return np_nonzero(l, c)
    c, a, b = arr_s(l, c), arr_s(l, ab[0]), arr_s(l, ab[1])
    return elementwise(lambda x, y, z: T.ite(
        x if T.is_boolean(x) else T.app("bool", x), y, z), c, a, b,
        kind=promote(kind_of(a), kind_of(b)))


def seq_arrs(l, v):
    v = l.resolve(v)
    if isinstance(v, Opq):
        raise OpqArg()
    return [arr(l, x) for x in l.iterate(v)]


def np_column_stack(l, v):
    xs = []
    for x in seq_arrs(l, v):
        if x.ndim < 2:
            x = transpose(at_least(x, 2))
        xs.append(x)
    return bconcat(xs, 1)


def bconcat(xs, axis):
    """Concatenation: all dimensions but `axis` must be equal."""
    if not xs:
        raise l_pyerr("ValueError: need at least one array")
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs):
        raise l_pyerr("ValueError: concatenation of arrays of different rank")
    ax = axis % nd
    for i in range(nd):
        if i == ax:
            continue
        for x in xs[1:]:
            p, q = x.dims[i], xs[0].dims[i]
            if not (p is q or p == q):
                if isinstance(p, int) and isinstance(q, int):
                    raise l_pyerr("ValueError: dimensions do not match")
                raise Unsupported("concatenation of different dimensions")
    return concat(xs, axis)


def np_vstack(l, v):
    return bconcat([at_least(x, 2) for x in seq_arrs(l, v)], 0)


def np_hstack(l, v):
    xs = [at_least(x, 1) for x in seq_arrs(l, v)]
    return bconcat(xs, 0 if xs and xs[0].ndim == 1 else 1)


def np_dstack(l, v):
    v = l.resolve(v)
    xs = []
    for x in seq_arrs(l, v):
        x = at_least(x, 2)
        if x.ndim == 2:
            x = Arr(x.data[..., None], x.dims + (1,), x.kind)
        xs.append(x)
    return bconcat(xs, 2)


def np_concatenate(l, v, axis=0):
    xs = seq_arrs(l, v)
    if axis is None:
        xs = [ravel(l, x) for x in xs]
        axis = 0
    return bconcat(xs, axis)


def np_stack(l, v, axis=0):
    xs = seq_arrs(l, v)
    for x in xs[1:]:
        if len(x.dims) != len(xs[0].dims) or any(
                not (p is q or p == q) for p, q in zip(x.dims, xs[0].dims)):
            raise Unsupported("stack of different shapes")
    return stack(xs, axis)


def red(op):
    def f(l, a, axis=None, dtype=None, keepdims=False, **kw):
        if kw:
            raise Unsupported(f"arguments of {op}")
        return reduce_arr(l, arr(l, a), op, axis, bool(keepdims))
    return f


def np_norm(l, a, ord=None, axis=None, keepdims=False):
    a = arr(l, a)
    if ord not in (None, 2) or ord is not None and axis is None and a.ndim > 1:
        one = axis is not None and not isinstance(axis, (tuple, list)) or a.ndim == 1
        if not one or ord not in (1, np.inf):
            raise Unsupported("norm order")
        return reduce_arr(l, to_arr(elementwise(lambda x: T.app("abs", x), a)),
                          "sum" if ord == 1 else "max", axis, bool(keepdims))
    s = reduce_arr(l, to_arr(elementwise(lambda x: T.mul(x, x), a)), "sum", axis,
                   bool(keepdims))
    return elementwise(lambda x: T.app("sqrt", x), s)


def np_meshgrid(l, *xs, indexing="xy", **kw):
    if len(xs) != 2 or indexing != "xy" or kw:
        raise Unsupported("meshgrid")
    x, y = arr(l, xs[0]), arr(l, xs[1])
    X = np.broadcast_to(x.data[None, :], (y.data.shape[0], x.data.shape[0])).copy()
    Y = np.broadcast_to(y.data[:, None], (y.data.shape[0], x.data.shape[0])).copy()
    dims = (y.dims[0], x.dims[0])
    return [Arr(X, dims, x.kind), Arr(Y, dims, y.kind)]


def np_average(l, a, axis=None, weights=None):
    a = arr(l, a)
    if weights is None:
        return reduce_arr(l, a, "mean", axis)
    w = arr(l, weights)
    if w.ndim == 1 and a.ndim == 2:
        ax = norm_axis(a, axis)[0]
        wd = w.data[:, None] if ax == 0 else w.data[None, :]
        w2 = Arr(wd, (w.dims[0], 1) if ax == 0 else (1, w.dims[0]), w.kind)
    else:
        w2, ax = w, axis
    p = to_arr(elementwise(lambda x, y: T.mul(x, y), a, w2))
    num = reduce_arr(l, p, "sum", ax)
    den = reduce_arr(l, w, "sum", None)
    return elementwise(lambda x, y: T.div(x, y), num, den)


def np_cov(l, m, y=None, rowvar=True, bias=False, ddof=None, fweights=None,
           aweights=None):
    if y is not None or fweights is not None:
        raise OpqArg()
    m = arr(l, m)
    if m.ndim != 2:
        raise OpqArg()
    x = m if rowvar else transpose(m)
    if ddof is None:
        ddof = 0 if bias else 1
    n = dlen(x.dims[1])
    if aweights is None:
        total, factor = n, T.sub(n, ddof)
        mean = reduce_arr(l, x, "mean", 1)
        w = Arr(np.ones((1, 1), dtype=object), (1, 1), "i")
    else:
        w = arr(l, aweights)
        if w.ndim != 1:
            raise OpqArg()
        total = reduce_arr(l, w, "sum", None)
        mean = np_average(l, x, 1, w)
        if T.is_num(ddof) and ddof == 0:
            factor = total
        else:
            w2 = reduce_arr(l, to_arr(elementwise(T.mul, w, w)), "sum", None)
            factor = T.sub(total, T.div(T.mul(ddof, w2), total))
        w = Arr(w.data[None, :], (1,) + w.dims, w.kind)
    d = to_arr(elementwise(T.sub, x, Arr(mean.data[:, None], mean.dims + (1,), "f")))
    wd = to_arr(elementwise(T.mul, d, w))
    k = d.data.shape[0]
    out = obj_array((k, k))
    for i in range(k):
        for j in range(k):
            p = Arr(np.array([T.mul(a, b) for a, b in zip(
                wd.data[i], d.data[j])] + [None], dtype=object)[:-1], (d.dims[1],), "f")
            out[i, j] = T.div(reduce_arr(l, p, "sum", None), factor)
    return simplify0(squeeze(Arr(out, (k, k), "f"), None)) if k == 1 else Arr(
        out, (k, k), "f")


def np_choice(l, a, size=None, replace=True, p=None):
    dims = shape_arg(l, size if size is not None else ())
    a = l.resolve(a)
    if isinstance(a, int) or T.is_boolean(a) or isinstance(a, T.Node):
        n, values = a, None
    else:
        values = arr(l, a)
        n = values.dims[0]
    if not isinstance(n, int):
        raise OpqArg()
    pv = tuple(arr(l, p).data.flat) if p is not None else None
    l.rand += 1
    from .value import sym_array
    k = sym_array(f"draw{l.rand}:choice", dims, ("choice", tuple(range(n))))
    k.kind = "i"
    l.draws.append(("choice", dims, (n, bool(replace), pv), k))
    if values is None:
        return simplify0(k)
    return simplify0(l.arr_get(values, k) if k.ndim else l.arr_get(values, k.data[()]))


def np_repeat(l, a, n, axis=None):
    a = arr(l, a)
    n = l.resolve(n)
    if isinstance(n, Arr) and n.ndim == 1:
        n = folded(l, n)
        if not concrete(n) or not all(isinstance(d, int) for d in a.dims):
            raise OpqArg()
        d = np.repeat(a.data, [int(k) for k in n.data], axis=axis)
        return Arr(d, d.shape, a.kind)
    if isinstance(n, int) and all(isinstance(d, int) for d in a.dims):
        d = np.repeat(a.data, n, axis=axis)
        return Arr(d, d.shape, a.kind)
    if a.ndim == 0 or (a.ndim == 1 and a.dims[0] == 1):
        d = dim_of_len(n)
        return full((d,), a.data.flat[0], a.kind)
    if axis is not None and isinstance(a.dims[axis], int) and a.dims[axis] == 1 and \
            not isinstance(n, Arr):
        d = dim_of_len(n)
        ax = axis % a.ndim
        k = d if isinstance(d, int) else 1
        return Arr(np.repeat(a.data, k, axis=ax), a.dims[:ax] + (d,) + a.dims[ax + 1:],
                   a.kind)
    raise Unsupported("repeat")


def np_tile(l, a, reps):
    a = arr(l, a)
    reps = l.resolve(reps)
    reps = tuple(reps) if isinstance(reps, (list, tuple)) else (reps,)
    if all(isinstance(r, int) for r in reps) and all(isinstance(d, int) for d in a.dims):
        d = np.tile(a.data, reps)
        return Arr(d, d.shape, a.kind)
    nd = max(len(reps), a.ndim)
    reps = (1,) * (nd - len(reps)) + reps
    data = a.data.reshape((1,) * (nd - a.ndim) + a.data.shape)
    dims = (1,) * (nd - a.ndim) + a.dims
    out = []
    for d, r in zip(dims, reps):
        if isinstance(r, int) and r == 1:
            out.append(d)
        elif isinstance(d, int) and d == 1:
            out.append(dim_of_len(r))
        else:
            raise Unsupported("tile")
    shape = tuple(d if isinstance(d, int) else 1 for d in out)
    return Arr(np.broadcast_to(data, shape).copy(), tuple(out), a.kind)


def np_iterable(l, v):
    v = l.resolve(v)
    if isinstance(v, Opq):
        return T.app("bool", T.opaque("iterable", (v.node,)))
    if isinstance(v, Arr):
        return v.ndim > 0
    if isinstance(v, Obj) and isinstance(v.cls, model.Class):
        return v.cls.find("__iter__") is not None
    return isinstance(v, (list, tuple, dict, str, range))


def np_isnan(l, v):
    v = arr_s(l, v)
    return elementwise(lambda x: T.app("isnan", x) if not T.is_boolean(x) else False, v,
                       kind="b")


def np_count(l, v, axis=None, **kw):
    a = arr(l, v)
    b = to_arr(elementwise(lambda x: T.ite(
        x if T.is_boolean(x) else T.app("bool", x), 1, 0), a))
    return reduce_arr(l, b, "sum", axis)


def np_finfo(l, dtype):
    k = dtype_kind(dtype)
    if k is None:
        raise Unsupported("finfo")
    info = np.finfo(float)
    return Obj("finfo", {"min": float(info.min), "max": float(info.max),
                         "eps": float(info.eps), "tiny": float(info.tiny)})


def np_iinfo(l, dtype):
    info = np.iinfo(np.int64)
    return Obj("iinfo", {"min": int(info.min), "max": int(info.max)})


def np_array_equiv(l, a, b):
    a, b = arr(l, a), arr(l, b)
    try:
        e = elementwise(lambda x, y: T.app("eq", x, y), a, b, kind="b")
    except ShapeError:
        return False
    e = to_arr(e)
    return reduce_arr(l, e, "all") if e.ndim else e.data[()]


def np_array_equal(l, a, b, **kw):
    a, b = arr(l, a), arr(l, b)
    if a.ndim != b.ndim:
        return False
    out = True
    for x, y in zip(a.dims, b.dims):
        if not (x is y or x == y):
            if isinstance(x, int) and isinstance(y, int):
                return False
            raise OpqArg()
    e = to_arr(elementwise(lambda x, y: T.app("eq", x, y), a, b, kind="b"))
    return T.land(out, reduce_arr(l, e, "all") if e.ndim else e.data[()])


def np_dot(l, a, b):
    return matmul(l, a, b)


def np_outer(l, a, b):
    a, b = ravel(l, arr(l, a)), ravel(l, arr(l, b))
    return elementwise(lambda x, y: T.mul(x, y), Arr(a.data[:, None], (a.dims[0], 1),
                                                     a.kind), b)


def np_expand_dims(l, a, axis):
    a = arr(l, a)
    ax = axis if axis >= 0 else axis + a.ndim + 1
    return Arr(np.expand_dims(a.data, ax), a.dims[:ax] + (1,) + a.dims[ax:], a.kind)


def np_flip(axis):
    def f(l, a):
        a = arr(l, a)
        return l.arr_get(a, tuple([slice(None)] * axis + [slice(None, None, -1)]))
    return f


def np_clip(l, a, lo, hi, **kw):
    a = arr_s(l, a)
    if lo is not None:
        a = ufunc(l, "max2", [a, lo], {})
    if hi is not None:
        a = ufunc(l, "min2", [a, hi], {})
    return a


def np_randn(l, *shape):
    return draw(l, "randn", shape_arg(l, tuple(shape)))


def np_random(l, *size):
    s = size[0] if size and size[0] is not None else ()
    return draw(l, "random", shape_arg(l, s))


def np_normal(l, loc=0.0, scale=1.0, size=None):
    if size is None:
        dims = broadcast_dims(to_arr(arr_s(l, loc)).dims, to_arr(arr_s(l, scale)).dims)
    else:
        dims = shape_arg(l, size)
    z = draw(l, "randn", dims)
    return elementwise(lambda m, s, x: T.add(m, T.mul(s, x)), arr_s(l, loc),
                       arr_s(l, scale), z)


def np_uniform(l, low=0.0, high=1.0, size=None):
    if size is None:
        dims = broadcast_dims(to_arr(arr_s(l, low)).dims, to_arr(arr_s(l, high)).dims)
    else:
        dims = shape_arg(l, size)
    z = draw(l, "random", dims)
    return elementwise(lambda a, b, x: T.add(a, T.mul(T.sub(b, a), x)), arr_s(l, low),
                       arr_s(l, high), z)


def np_polyval(l, p, x):
    p = arr(l, p)
    if p.ndim != 1 or not isinstance(p.dims[0], int):
        raise Unsupported("polyval")
    x = arr_s(l, x)
    out = 0
    for c in p.data:
        out = elementwise(lambda o, v, c=c: T.add(T.mul(o, v), c), out, x)
    return out


def np_delete(l, a, idx, axis=None):
    a = arr(l, a)
    i = idx if isinstance(idx, slice) else arr_s(l, idx)
    if isinstance(i, slice) and all(isinstance(d, int) for d in a.dims):
        d = np.delete(a.data, i, axis=axis)
        return Arr(d, d.shape, a.kind)
    if isinstance(i, Arr):
        i = folded(l, i)
        if i.kind == "b" and a.ndim == 1 and i.dims == a.dims:
            return l.getitem(a, elementwise(T.lnot, i, kind="b"))
    if all(isinstance(d, int) for d in a.dims) and (
            T.is_num(i) or (isinstance(i, Arr) and all(
                T.is_num(x) for x in i.data.flat))):
        k = int(i) if T.is_num(i) else [int(x) for x in i.data.flat]
        d = np.delete(a.data, k, axis=axis)
        return Arr(d, d.shape, a.kind)
    raise Unsupported("delete")


def np_isin(l, element, test_elements, assume_unique=False, invert=False, kind=None):
    a, b = arr_s(l, element), arr_s(l, test_elements)
    b = b if isinstance(b, Arr) else to_arr([b])
    if isinstance(test_elements, (set, frozenset)) or b.kind == "o" or not all(
            isinstance(d, int) for d in b.dims):
        raise OpqArg()
    out = elementwise(lambda x: T.lor(*[T.app("eq", x, y) for y in b.data.flat]), a,
                      kind="b")
    return elementwise(T.lnot, out, kind="b") if invert else out


def setop(fn):
    def run(l, a, b, assume_unique=False):
        a, b = (folded(l, at_least(arr_s(l, x), 1)) for x in (a, b))
        if not (concrete(a) and concrete(b)):
            raise OpqArg()
        out = to_arr(fn(native(a), native(b)).tolist())
        out.kind = a.kind
        return out
    return run


def np_append(l, a, b, axis=None):
    a, b = arr(l, a), arr(l, b)
    if axis is None:
        return bconcat([at_least(ravel(l, a), 1), at_least(ravel(l, b), 1)], 0)
    return bconcat([a, b], axis)


def np_insert(l, a, i, v, axis=None):
    a = arr(l, a)
    if a.ndim != 1 or not isinstance(a.dims[0], int) or not isinstance(i, int):
        raise OpqArg()
    vs = list(at_least(arr(l, v), 1).data)
    xs = list(a.data)
    i = i if i >= 0 else i + len(xs)
    return to_arr(xs[:i] + vs + xs[i:])


def np_argsort(l, a, axis=-1, kind=None):
    a = folded(l, arr(l, a))
    if a.ndim != 1 or not isinstance(a.dims[0], int):
        raise OpqArg()
    if not concrete(a):
        o = decide.ordering(list(a.data.flat))
        if o is None:
            raise OpqArg()
        return to_arr(o[0])
    return to_arr(np.argsort(native(a), kind="stable").tolist())


def np_sort(l, a, axis=-1, kind=None):
    a = folded(l, arr(l, a))
    if a.ndim != 1 or not isinstance(a.dims[0], int):
        raise OpqArg()
    if not concrete(a):
        o = decide.ordering(list(a.data.flat))
        if o is None:
            xs = list(a.data.flat)
            if len(xs) > 6:
                raise OpqArg()
            r = to_arr([T.rank(xs, k) for k in range(len(xs))])
            r.kind = a.kind
            return r
        r = to_arr([a.data[i] for i in o[0]])
        r.kind = a.kind
        return r
    return to_arr(np.sort(native(a)).tolist())


def np_broadcast_to(l, a, shape):
    a = arr(l, a)
    dims = shape_arg(l, shape)
    sh = tuple(d if isinstance(d, int) else 1 for d in dims)
    broadcast_dims(a.dims, dims)
    return Arr(np.broadcast_to(a.data, sh).copy(), dims, a.kind)


def np_issubdtype(l, a, b):
    k = dtype_kind(a)
    n = b.name.rsplit(".", 1)[-1] if isinstance(b, Ext) else ""
    if k in ("f", "i", "b"):
        if n in ("floating", "float", "inexact"):
            return k == "f"
        if n == "integer":
            return k == "i"
        if n == "number":
            return k in ("f", "i")
        if n in ("bool_", "bool"):
            return k == "b"
    raise OpqArg()


def concrete(a):
    return all(isinstance(d, int) for d in a.dims) and all(
        T.is_num(x) for x in a.data.flat)


def native(a):
    if a.kind == "b":
        return a.data.astype(bool)
    if a.kind == "i" or all(isinstance(x, int) for x in a.data.flat):
        return a.data.astype(int)
    return a.data.astype(float)


def folded(l, a):
    """Array with its elements folded where they are constant everywhere."""
    if a.data.size > 512 or concrete(a):
        return a
    data = a.data.copy()
    for i, x in np.ndenumerate(data):
        data[i] = l.number(x)
    return Arr(data, a.dims, a.kind)


def np_unique(l, a, return_index=False, return_inverse=False, return_counts=False,
              axis=None):
    a = folded(l, arr(l, a))
    if axis is not None and a.ndim > 1 and all(isinstance(d, int) for d in a.dims) \
            and concrete(a) and not (return_index or return_inverse or return_counts):
        return to_arr(np.unique(native(a), axis=axis).tolist())
    if axis is not None and a.ndim != 1 or not all(isinstance(d, int) for d in a.dims):
        raise OpqArg()
    if not concrete(a):
        o = decide.ordering(list(a.data.flat)) if a.data.size <= 512 else None
        if o is None:
            raise OpqArg()
        order, same = o
        firsts, groups = [], [0] * len(order)
        for k, i in enumerate(order):
            if k == 0 or not same[k - 1]:
                firsts.append([])
            firsts[-1].append(i)
            groups[i] = len(firsts) - 1
        values = to_arr([a.data.flat[min(g)] for g in firsts])
        values.kind = a.kind
        out = [values]
        if return_index:
            out.append(to_arr([min(g) for g in firsts]))
        if return_inverse:
            out.append(to_arr(groups))
        if return_counts:
            out.append(to_arr([len(g) for g in firsts]))
        return tuple(out) if len(out) > 1 else values
    r = np.unique(native(a), return_index=return_index, return_inverse=return_inverse,
                  return_counts=return_counts)
    if isinstance(r, tuple):
        return tuple(to_arr(x.ravel().tolist()) for x in r)
    return to_arr(r.tolist())


def np_bincount(l, x, weights=None, minlength=0):
    x = arr(l, x)
    if not concrete(x):
        raise OpqArg()
    k = x.data.astype(int)
    n = max(int(k.max()) + 1 if k.size else 0, minlength)
    w = arr(l, weights).data.ravel() if weights is not None else [1] * len(k)
    out = [0.0 if weights is not None else 0] * n
    for i, v in zip(k, w):
        out[i] = T.add(out[i], v)
    return to_arr(out)


def np_ravel_multi_index(l, ix, dims, mode="raise", order="C"):
    ix = [arr_s(l, i) for i in l.iterate(ix)]
    dims = shape_arg(l, dims)
    out = 0
    ix = [folded(l, i) if isinstance(i, Arr) else i for i in ix]
    for i, d in zip(ix, dims):
        n = dlen(d)
        if mode == "raise" and isinstance(n, int) and not l.pc[l.base_pc:]:
            for k in (i.data.flat if isinstance(i, Arr) else [i]):
                if isinstance(k, int) and not isinstance(k, bool) and not 0 <= k < n:
                    raise l_pyerr("ValueError: invalid index to ravel")
        out = elementwise(lambda o, j, n=n: T.add(T.mul(o, n), j), out, i)
    if isinstance(out, Arr):
        out.kind = "i"
    return out


def np_unravel_index(l, i, shape, order="C"):
    i = arr_s(l, i)
    dims = shape_arg(l, shape)
    out = []
    for d in reversed(dims):
        n = dlen(d)
        v = elementwise(lambda x, n=n: T.app("mod", x, n), i)
        i = elementwise(lambda x, n=n: T.app("floordiv", x, n), i)
        for q in (v, i):
            if isinstance(q, Arr):
                q.kind = "i"
        out.append(v)
    return tuple(reversed(out))


def np_searchsorted(l, a, v, side="left", sorter=None):
    a, v = arr(l, a), arr_s(l, v)
    if sorter is not None or a.ndim != 1:
        raise OpqArg()
    op = "lt" if side == "left" else "le"
    if isinstance(a.dims[0], int):
        def count(x):
            n = 0
            for y in a.data:
                n = T.add(n, T.ite(T.app(op, y, x), 1, 0))
            return n
        return elementwise(count, v, kind="i")
    if is_scalar(v):
        d = a.dims[0]
        return red("sum")(l, Arr(elementwise(lambda y: T.ite(T.app(op, y, v), 1, 0),
                                             a).data, (d,), "i"))
    raise OpqArg()


def np_lexsort(l, keys, axis=-1):
    ks = [arr(l, k) for k in l.iterate(keys)]
    ks = [to_arr(elementwise(l.number, k)) for k in ks]
    if axis not in (-1, 0) or not ks or any(
            k.ndim != 1 or not concrete(k) or k.dims != ks[0].dims for k in ks):
        raise OpqArg()
    return to_arr(np.lexsort([k.data.astype(float) for k in ks]).tolist())


def np_interp(l, x, xp, fp, left=None, right=None, period=None):
    x, xp, fp = arr_s(l, x), arr(l, xp), arr(l, fp)
    if xp.ndim != 1 or not isinstance(xp.dims[0], int) or not 0 < xp.dims[0] <= 40:
        raise OpqArg()
    if fp.dims != xp.dims:
        raise PyError("ValueError: fp and xp are not of the same length")
    n = xp.dims[0]
    X, F = [l.number(v) for v in xp.data], list(fp.data)
    period = l.resolve(period)
    if period is not None:
        # positions are equal if they differ by the period
        x = elementwise(l.number, x)
        period = l.number(period)
        if not T.is_num(period) or not all(T.is_num(v) for v in X) or not all(
                T.is_num(v) for v in to_arr(x).data.flat):
            raise OpqArg()
        if period == 0:
            raise PyError("ValueError: period must be a non-zero value")
        period = abs(period)
        order = sorted(range(n), key=lambda i: X[i] % period)
        X, F = [X[i] % period for i in order], [F[i] for i in order]
        X = [X[-1] - period] + X + [X[0] + period]
        F = [F[-1]] + F + [F[0]]
        x = elementwise(lambda v: v % period, x)
        left = right = None
        n += 2
    elif n > 16 and not all(T.is_num(v) for v in to_arr(x).data.flat):
        raise OpqArg()
    if all(T.is_num(v) for v in X) and all(T.is_num(v) for v in to_arr(x).data.flat) and \
            X == sorted(X):
        # known intervals
        def known(v):
            if v != v:
                return float("nan")
            if v < X[0]:
                return F[0] if left is None else left
            if v > X[-1]:
                return F[-1] if right is None else right
            i = max(k for k in range(n) if X[k] <= v)
            if X[i] == v or i == n - 1:
                return F[i]
            s = T.div(T.sub(F[i + 1], F[i]), X[i + 1] - X[i])
            return T.add(F[i], T.mul(s, v - X[i]))
        return elementwise(known, x, kind="f")

    def at(v):
        out = F[-1] if right is None else right
        out = T.ite(T.app("eq", v, X[-1]), F[-1], out)
        for i in range(n - 2, -1, -1):
            s = T.div(T.sub(F[i + 1], F[i]), T.sub(X[i + 1], X[i]))
            out = T.ite(T.app("lt", v, X[i + 1]),
                        T.add(F[i], T.mul(s, T.sub(v, X[i]))), out)
        return T.ite(T.app("lt", v, X[0]), F[0] if left is None else left, out)
    return elementwise(at, x, kind="f")


def np_split(l, a, ix, axis=0):
    a = arr(l, a)
    i = arr_s(l, ix)
    if T.is_num(i):
        cuts = int(i)
    elif concrete(i):
        cuts = [int(x) for x in i.data.flat]
    else:
        raise OpqArg()
    if not all(isinstance(d, int) for d in a.dims):
        raise OpqArg()
    return [Arr(p, p.shape, a.kind) for p in np.split(a.data, cuts, axis=axis)]


def np_nonzero(l, a):
    a = arr(l, a)
    if a.ndim == 1 and isinstance(a.dims[0], T.Dim) and a.dims[0].base is None and \
            not isinstance(a.data[0], Opq):
        d, x = a.dims[0], a.data[0]
        out = obj_array((1,))
        out[0] = T.rowindex(d)
        m = x if T.is_boolean(x) else T.lnot(T.app("eq", x, 0))
        return (Arr(out, (T.subdim(d, m),), "i"),)
    if not any(x is None or isinstance(x, (Obj, Opq)) for x in a.data.flat):
        a = elementwise(lambda x: x if T.is_boolean(x) else T.lnot(T.app("eq", x, 0)), a,
                        kind="b")
    a = folded(l, to_arr(a))
    if not all(isinstance(d, int) for d in a.dims) or not all(
            T.is_num(x) for x in a.data.flat):
        raise OpqArg()
    return tuple(to_arr([int(v) for v in i]) if len(i) else Arr(obj_array((0,)), (0,), "i")
                 for i in np.nonzero(a.data.astype(float)))


def np_cdist(l, x, y, metric="euclidean", p=2):
    x, y = arr(l, x), arr(l, y)
    if x.ndim != 2 or y.ndim != 2 or metric not in ("euclidean", "minkowski",
                                                    "cityblock", "sqeuclidean"):
        raise OpqArg()
    if not isinstance(x.dims[1], int) or x.dims[1] != y.dims[1]:
        raise OpqArg()
    if metric == "cityblock":
        p = 1
    if p not in (1, 2):
        raise OpqArg()
    d = elementwise(T.sub, Arr(x.data[:, None, :], (x.dims[0], 1, x.dims[1]), x.kind),
                    Arr(y.data[None, :, :], (1, y.dims[0], y.dims[1]), y.kind))
    out = obj_array(d.data.shape[:2])
    for i in np.ndindex(*out.shape):
        s = 0
        for v in d.data[i]:
            s = T.add(s, T.app("abs", v) if p == 1 else T.mul(v, v))
        out[i] = s if p == 1 or metric == "sqeuclidean" else T.app("sqrt", s)
    return Arr(out, d.dims[:2], "f")


def np_take(l, a, ix, axis=None):
    a = arr(l, a)
    if axis is None:
        a, axis = ravel(l, a), 0
    ax = norm_axis(a, axis)[0]
    return l.arr_get(a, tuple([slice(None)] * ax + [l.resolve(ix)]))


def np_swapaxes(l, a, i, j):
    a = arr(l, a)
    i, j = (norm_axis(a, x)[0] for x in (i, j))
    order = list(range(a.ndim))
    order[i], order[j] = j, i
    return transpose(a, tuple(order))


def np_diagonal(l, a, offset=0):
    a = arr(l, a)
    if a.ndim != 2 or any(not isinstance(d, int) for d in a.dims):
        raise Unsupported("diagonal")
    v = np.diagonal(a.data, offset)
    return Arr(v.copy(), v.shape, a.kind)


def np_ptp(l, a, axis=None):
    return l.binop(ast.Sub(), red("max")(l, a, axis), red("min")(l, a, axis))


NP = {
    "swapaxes": np_swapaxes, "diagonal": np_diagonal, "ptp": np_ptp,
    "trace": lambda l, a, offset=0: red("sum")(l, np_diagonal(l, a, offset)),
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray, "full": np_full,
    "zeros": lambda l, s, dtype=None: np_full(l, s, 0.0, dtype) if dtype_kind(
        dtype) != "i" else np_full(l, s, 0, dtype),
    "ones": lambda l, s, dtype=None: np_full(l, s, 1.0, dtype) if dtype_kind(
        dtype) != "i" else np_full(l, s, 1, dtype),
    "empty": np_empty, "empty_like": np_empty_like, "zeros_like": like(0.0), "ones_like": like(1.0),
    "full_like": lambda l, a, v, dtype=None: np_full(l, shape_of(arr(l, a)), v, dtype),
    "where": np_where, "column_stack": np_column_stack, "row_stack": np_vstack,
    "vstack": np_vstack, "hstack": np_hstack, "dstack": np_dstack,
    "concatenate": np_concatenate, "stack": np_stack,
    "sum": red("sum"), "mean": red("mean"), "min": red("min"), "max": red("max"),
    "amin": red("min"), "amax": red("max"), "any": red("any"), "all": red("all"),
    "prod": red("prod"), "nansum": red("nansum"), "nanmin": red("nanmin"),
    "nanmax": red("nanmax"), "nanmean": red("nanmean"), "median": red("median"),
    "argmin": red("argmin"), "argmax": red("argmax"),
    "nanargmin": red("nanargmin"), "nanargmax": red("nanargmax"),
    "std": lambda l, a, axis=None, ddof=0: std(l, arr(l, a), axis, ddof),
    "var": lambda l, a, axis=None, ddof=0: std(l, arr(l, a), axis, ddof, True),
    "cumsum": lambda l, a, axis=None: cum(l, arr(l, a), "cumsum", axis),
    "cumprod": lambda l, a, axis=None: cum(l, arr(l, a), "cumprod", axis),
    "dot": np_dot, "matmul": np_matmul, "outer": np_outer, "linalg.norm": np_norm,
    "transpose": lambda l, a, axes=None: transpose(arr(l, a), axes),
    "reshape": lambda l, a, s: reshape(l, arr(l, a), (s,) if not isinstance(
        s, (tuple, list)) else tuple(s)),
    "ravel": lambda l, a: ravel(l, arr(l, a)),
    "squeeze": lambda l, a, axis=None: simplify0(squeeze(arr(l, a), axis)),
    "atleast_1d": lambda l, a: at_least(arr(l, a), 1),
    "atleast_2d": lambda l, a: at_least(arr(l, a), 2),
    "atleast_3d": lambda l, a: at_least(arr(l, a), 3),
    "diff": lambda l, a, n=1, axis=-1: diff(l, arr(l, a), axis),
    "linspace": linspace, "arange": lambda l, *a, **k: arange(l, a, k),
    "meshgrid": np_meshgrid, "average": np_average, "cov": np_cov,
    "random.choice": np_choice, "repeat": np_repeat,
    "tile": np_tile, "iterable": np_iterable, "isnan": np_isnan,
    "isfinite": lambda l, v: elementwise(lambda x: T.app("isfinite", x), arr_s(l, v),
                                         kind="b"),
    "isinf": lambda l, v: elementwise(lambda x: T.land(
        T.lnot(T.app("isfinite", x)), T.lnot(T.app("isnan", x))), arr_s(l, v), kind="b"),
    "count_nonzero": np_count, "array_equal": np_array_equal, "gradient": scipymod.gradient, "finfo": np_finfo, "iinfo": np_iinfo, "array_equiv": np_array_equiv,
    "expand_dims": np_expand_dims, "fliplr": np_flip(1), "flipud": np_flip(0),
    "clip": np_clip, "round": lambda l, v, decimals=0: _round(l, v, decimals),
    "around": lambda l, v, decimals=0: _round(l, v, decimals),
    "logical_and": lambda l, a, b: elementwise(T.land, arr_s(l, a), arr_s(l, b),
                                               kind="b"),
    "logical_or": lambda l, a, b: elementwise(T.lor, arr_s(l, a), arr_s(l, b),
                                              kind="b"),
    "logical_not": lambda l, a: elementwise(T.lnot, arr_s(l, a), kind="b"),
    "invert": lambda l, a: elementwise(T.lnot, arr_s(l, a), kind="b"),
    "square": lambda l, a: elementwise(lambda x: T.mul(x, x), arr_s(l, a)),
    "hypot": lambda l, a, b: elementwise(lambda x, y: T.app("sqrt", T.add(
        T.mul(x, x), T.mul(y, y))), arr_s(l, a), arr_s(l, b)),
    "deg2rad": lambda l, a: elementwise(lambda x: T.mul(x, math.pi / 180), arr_s(l, a)),
    "radians": lambda l, a: elementwise(lambda x: T.mul(x, math.pi / 180), arr_s(l, a)),
    "rad2deg": lambda l, a: elementwise(lambda x: T.mul(x, 180 / math.pi), arr_s(l, a)),
    "degrees": lambda l, a: elementwise(lambda x: T.mul(x, 180 / math.pi), arr_s(l, a)),
    "random.randn": np_randn, "random.standard_normal": np_random,
    "random.random": np_random, "random.rand": np_randn, "random.normal": np_normal,
    "random.uniform": np_uniform, "polyval": np_polyval, "delete": np_delete,
    "lgamma": combinatorial(math.lgamma), "gamma": combinatorial(math.gamma),
    "comb": whole(math.comb), "factorial": whole(math.factorial), "perm": whole(math.perm),
    "isin": np_isin, "in1d": np_isin, "union1d": setop(np.union1d),
    "setdiff1d": setop(np.setdiff1d), "intersect1d": setop(np.intersect1d),
    "unique": np_unique, "argsort": np_argsort, "sort": np_sort, "insert": np_insert, "bincount": np_bincount, "split": np_split,
    "ravel_multi_index": np_ravel_multi_index, "unravel_index": np_unravel_index,
    "searchsorted": np_searchsorted, "interp": np_interp, "lexsort": np_lexsort, "nonzero": np_nonzero,
    "flatnonzero": lambda l, a: np_nonzero(l, ravel(l, arr(l, a)))[0], "take": np_take,
    "append": np_append, "broadcast_to": np_broadcast_to, "eye": lambda l, n: to_arr(
        [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]),
    "identity": lambda l, n: to_arr(
        [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]),
    "diag": lambda l, a: np_diag(l, a), "issubdtype": np_issubdtype, "ix_": np_ix_,
    "isscalar": lambda l, v: is_scalar(v),
    "shape": lambda l, a: shape_of(arr(l, a)), "size": lambda l, a: size_of(arr(l, a)),
    "ndim": lambda l, a: arr(l, a).ndim,
    "copy": lambda l, a: arr(l, a).copy(),
    "errstate": lambda l, **k: None, "isclose": np_isclose,
    "allclose": lambda l, *a, **k: red("all")(l, np_isclose(l, *a, **k)),
    "cross": lambda l, a, b: np_cross(l, a, b),
}
NP["random.rand"] = lambda l, *s: draw(l, "random", shape_arg(l, tuple(s)))
NP["random.standard_normal"] = lambda l, size=(): draw(l, "randn", shape_arg(l, size))


def opq():
    raise OpqArg()


def np_diag(l, a):
    a = arr(l, a)
    if a.ndim == 1 and isinstance(a.dims[0], int):
        n = a.dims[0]
        return to_arr([[a.data[i] if i == j else 0.0 for j in range(n)]
                       for i in range(n)])
    if a.ndim == 2 and all(isinstance(d, int) for d in a.dims):
        return to_arr([a.data[i, i] for i in range(min(a.dims))])
    raise Unsupported("diag")


def np_cross(l, a, b):
    a, b = arr(l, a), arr(l, b)
    if a.dims[-1] != 3 or b.dims[-1] != 3:
        raise Unsupported("cross")
    g = lambda x, i: simplify0(l.arr_get(x, (Ellipsis, i)))  # noqa: E731
    out = []
    for i, j in ((1, 2), (2, 0), (0, 1)):
        out.append(elementwise(lambda p, q, r, s: T.sub(T.mul(p, q), T.mul(r, s)),
                               g(a, i), g(b, j), g(a, j), g(b, i)))
    return stack([to_arr(x) for x in out], -1)


def timedelta(l, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0,
              weeks=0):
    out = 0
    for v, k in ((days, 86400), (seconds, 1), (microseconds, 1e-6), (milliseconds, 1e-3),
                 (minutes, 60), (hours, 3600), (weeks, 604800)):
        if isinstance(v, Opq):
            raise OpqArg()
        out = T.add(out, T.mul(v, k))
    return out


def shallow(l, v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.attrs), v.label)
    if hasattr(v, "shallow"):
        return v.shallow()
    if isinstance(v, (list, dict)):
        return v.copy()
    return v


def deep(l, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = v.copy()
    elif isinstance(v, Bound):
        r = Bound(v.func, deep(l, v.self_, memo))
    elif isinstance(v, Obj):
        r = Obj(v.cls, {}, v.label)
        memo[id(v)] = r
        r.attrs = {k: deep(l, x, memo) for k, x in v.attrs.items()}
        return r
    elif hasattr(v, "deepcopy"):
        r = v.deepcopy(l, memo)
    elif isinstance(v, (list, tuple)):
        r = type(v)(deep(l, x, memo) for x in v)
    elif isinstance(v, dict):
        r = {k: deep(l, x, memo) for k, x in v.items()}
        if isinstance(v, DefaultV):
            r = DefaultV(v.factory, r)
    elif isinstance(v, Gate):
        r = Gate(v.cond, deep(l, v.a, memo), deep(l, v.b, memo))
    else:
        return v
    memo[id(v)] = r
    return r


def map_reduce(l, *a, **k):
    from . import world
    return world.map_reduce(l, *a, **k)


OTHER = {
    "scipy.special.comb": whole(math.comb), "scipy.special.binom": whole(math.comb),
    "scipy.special.gammaln": combinatorial(math.lgamma),
    "scipy.special.factorial": whole(math.factorial),
    "datetime.timedelta": timedelta, "copy.copy": shallow,
    "copy.deepcopy": lambda l, v: deep(l, v),
    "collections.defaultdict": lambda l, f=None, *a, **k: defaultdict_(l, f, a, k),
    "inspect.getfullargspec": lambda l, f: argspec(l, f),
    "inspect.signature": lambda l, f: Obj("Signature", {"parameters": {
        k: Obj("Parameter", {"name": k}) for k in argspec(l, f, True).attrs["args"]}}),
    "scipy.spatial.distance.cdist": np_cdist,
    "sys.exc_info": lambda l: tuple(Opq(T.opaque(f"exc_info{i}")) for i in range(3)),
    "warnings.warn": lambda l, *a, **k: None,
    "warnings.catch_warnings": lambda l, *a, **k: [],
    "sharedmem.MapReduce": map_reduce, "sharedmem.MapReduceByThread": map_reduce,
    **scipymod.TABLE,
}


# -- methods ------------------------------------------------------------------------------
def call_method(l, base, name, args, kwargs):
    args = [l.resolve(a) for a in args]
    kwargs = {k: l.resolve(v) for k, v in kwargs.items()}
    if isinstance(base, Opq):
        if name in IMPURE:
            raise Unsupported(f"method .{name} of an opaque value")
        if name == "copy" and not args:
            return base
        return opaque_call(l, "." + name, [base] + args, kwargs)
    try:
        if isinstance(base, Arr):
            return arr_method(l, base, name, args, kwargs)
        if isinstance(base, SetV):
            return set_method(l, base, name, args, kwargs)
        if isinstance(base, list):
            return list_method(l, base, name, args, kwargs)
        if isinstance(base, dict):
            return dict_method(l, base, name, args, kwargs)
        if isinstance(base, str):
            return str_method(l, base, name, args, kwargs)
        if isinstance(base, bytes):
            return bytes_method(base, name, args, kwargs)
        if isinstance(base, tuple) and name == "index":
            return base.index(args[0])
        if is_scalar(base):
            return scalar_method(l, base, name, args, kwargs)
    except OpqArg:
        return opaque_call(l, "." + name, [base] + args, kwargs)
    except TypeError as e:
        raise Unsupported(f"method .{name}: {e}")
    raise Unsupported(f"method .{name} of {type(base).__name__}")


def defaultdict_(l, factory, args, kw):
    if factory is None:
        return l.call(Ext("dict"), list(args), kw)
    d = l.resolve(args[0]) if args else {}
    if not isinstance(d, dict):
        raise Unsupported("defaultdict of these items")
    return DefaultV(factory, d, **kw)


def argspec(l, f, bound=False):
    f = l.resolve(f)
    fn = f.func if isinstance(f, (Bound, FuncRef)) else f
    node = getattr(f if isinstance(f, Closure) else fn, "node", None)
    if node is None or not hasattr(node, "args"):
        raise Unsupported("signature of this value")
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        names = names[1 if isinstance(f, Bound) else 0:] + [x.arg for x in a.kwonlyargs]
    return Obj("FullArgSpec", {
        "args": names, "kwonlyargs": [x.arg for x in a.kwonlyargs],
        "varargs": a.vararg.arg if a.vararg else None,
        "varkw": a.kwarg.arg if a.kwarg else None})


REDM = {"sum", "mean", "min", "max", "any", "all", "prod", "argmin", "argmax"}


def arr_method(l, a, name, args, kw):
    if name in REDM:
        return red(name)(l, a, *args, **kw)
    if name in ("copy", "tocsr", "tocsc", "tolil", "toarray", "todense"):
        return a.copy()
    if name == "astype":
        kw.pop("copy", None)
        return cast_kind(l, a.copy(), *args, **kw)
    if name == "reshape":
        kw.pop("order", None)
        return reshape(l, a, args)
    if name == "ravel":
        return ravel(l, a)
    if name == "flatten":
        return ravel(l, a).copy()
    if name == "dot":
        return matmul(l, a, args[0])
    if name == "transpose":
        return transpose(a, tuple(args) if args and isinstance(args[0], int) else (
            args[0] if args else None))
    if name == "squeeze":
        return squeeze(a, *args, **kw)
    if name == "cumsum":
        return cum(l, a, "cumsum", *args, **kw)
    if name in ("std", "var"):
        return std(l, a, var=name == "var", *args, **kw)
    if name == "fill":
        l.write_all(a, full(a.dims, args[0]))
        return None
    if name == "tolist":
        if all(isinstance(d, int) for d in a.dims):
            return [r for r in a.data.tolist()]
        return a
    if name == "item" and a.data.size == 1:
        return a.data.flat[0]
    if name == "item" and not args and a.ndim and all(isinstance(d, int) for d in a.dims):
        from .interp import PyError
        raise PyError("ValueError: item of an array of several elements")
    if name == "clip":
        return np_clip(l, a, *args, **kw)
    if name == "round":
        return _round(l, a, *args)
    if name == "repeat":
        return np_repeat(l, a, *args, **kw)
    if name == "nonzero":
        return np_nonzero(l, a)
    if name == "argsort":
        return np_argsort(l, a, *args, **kw)
    if name == "searchsorted":
        return np_searchsorted(l, a, *args, **kw)
    if name in ("take", "swapaxes", "diagonal", "ptp", "trace", "cumprod", "compress",
                "argpartition", "put", "conj", "view") and name in NP:
        return NP[name](l, a, *args, **kw)
    if name == "sort":
        l.write_all(a, np_sort(l, a, *args, **kw))
        return None
    raise Unsupported(f"array method .{name}")


def distinct(x, y):
    """Whether two values surely compare unequal."""
    def plain(o):
        return isinstance(o, Obj) and not (isinstance(o.cls, model.Class) and
                                           o.cls.find("__eq__"))
    if plain(x) and plain(y):
        return x is not y
    return any(plain(a) and (b is None or isinstance(b, (str, int, float, T.Node)))
               for a, b in ((x, y), (y, x)))


def guard_live(l):
    if len(l.pc) > l.base_pc:
        raise Unsupported("conditional update of a list or dictionary")


def list_method(l, v, name, args, kw):
    if name == "append":
        guard_live(l)
        v.append(args[0])
        return None
    if name == "extend":
        guard_live(l)
        v.extend(l.iterate(args[0]))
        return None
    if name == "insert":
        guard_live(l)
        v.insert(args[0], args[1])
        return None
    if name == "pop":
        guard_live(l)
        if all(isinstance(i, int) and not -len(v) <= i < len(v) for i in args or [0]):
            raise l_pyerr("IndexError: list pop out of range")
        return v.pop(*args)
    if name == "copy":
        return list(v)
    if name == "clear":
        guard_live(l)
        v.clear()
        return None
    if name == "remove":
        guard_live(l)
        del v[list_method(l, v, "index", args, kw)]
        return None
    if name == "index":
        made = [isinstance(x, Obj) and isinstance(x.cls, model.Class)
                for x in [*v, args[0]]]
        for i, x in enumerate(v):
            if x is args[0] or (isinstance(x, (str, int, float)) and isinstance(
                    args[0], (str, int, float)) and x == args[0]):
                return i
            if made[i] and made[-1]:
                k = same_item(l, x, args[0])
                if k is None:
                    raise OpqArg()
                if k:
                    return i
        if all(made):
            from .interp import PyError
            raise PyError("ValueError: not in list")
        if all(distinct(x, args[0]) for x in v):
            from .interp import PyError
            raise PyError("ValueError: not in list")
        raise OpqArg()
    if name == "count" and all(isinstance(x, (str, int, float)) for x in v):
        return v.count(args[0])
    if name == "sort":
        guard_live(l)
        v[:] = _sorted(l, v, *args, **kw)
        return None
    if name == "reverse":
        guard_live(l)
        v.reverse()
        return None
    raise Unsupported(f"list method .{name}")


def dict_method(l, v, name, args, kw):
    if name == "items":
        return [(k, x) for k, x in v.items()]
    if name == "keys":
        return list(v)
    if name == "values":
        return list(v.values())
    if name == "get":
        if not isinstance(args[0], (str, int, float, tuple)):
            raise OpqArg()
        return v.get(args[0], args[1] if len(args) > 1 else None)
    if name == "copy":
        return dict(v)
    if name == "update":
        guard_live(l)
        if args:
            if not isinstance(args[0], dict):
                raise Unsupported("update")
            v.update(args[0])
        v.update(kw)
        return None
    if name == "pop":
        guard_live(l)
        if len(args) == 1 and isinstance(args[0], str) and args[0] not in v and \
                all(isinstance(k, str) for k in v):
            raise l_pyerr(f"KeyError: {args[0]!r}")
        return v.pop(*args)
    if name == "clear":
        guard_live(l)
        v.clear()
        return None
    if name == "setdefault":
        guard_live(l)
        return v.setdefault(*args)
    raise Unsupported(f"dict method .{name}")


def str_method(l, v, name, args, kw):
    if all(isinstance(a, (str, int, tuple, type(None))) and not isinstance(a, T.Node)
           for a in [*args, *kw.values()]) and \
            hasattr(str, name) and name[0] != "_" and name not in (
                "join", "format", "encode", "format_map", "maketrans", "translate"):
        try:
            return getattr(v, name)(*args, **kw)
        except ValueError as e:
            raise l_pyerr(f"ValueError: {e}")
    if name == "join":
        if isinstance(l.resolve(args[0]), Opq):
            raise OpqArg()
        xs = l.iterate(args[0])
        if all(isinstance(x, str) for x in xs):
            return v.join(xs)
    if name == "format":
        def word(x):
            x = l.resolve(x)
            if isinstance(x, T.Node) and not re.fullmatch(r"([^{}]|{\w*})*", v):
                raise OpqArg()
            x = x if isinstance(x, (str, int, float)) else l.in_words(x)
            if not isinstance(x, (str, int, float)):
                raise OpqArg()
            return x
        try:
            return v.format(*map(word, args), **{k: word(x) for k, x in kw.items()})
        except (ValueError, IndexError, KeyError):
            raise l_pyerr("ValueError: invalid format of a number")
    raise OpqArg()


def bytes_method(v, name, args, kw):
    if all(isinstance(a, (str, bytes, int, tuple, type(None))) and not isinstance(
            a, T.Node) for a in [*args, *kw.values()]) and name[0] != "_":
        if not hasattr(bytes, name):
            raise l_pyerr(f"AttributeError: no attribute {name}")
        try:
            return getattr(v, name)(*args, **kw)
        except UnicodeDecodeError as e:
            raise l_pyerr(f"UnicodeDecodeError: {e}")
        except ValueError as e:
            raise l_pyerr(f"ValueError: {e}")
    raise OpqArg()


def scalar_method(l, v, name, args, kw):
    if name == "timestamp":
        # of a local time: the offset from UTC changes in time (daylight saving)
        h = T.app("floor", T.div(v, 2))
        return T.add(v, T.mul(3600, T.sub(h, T.mul(2, T.app("floor", T.div(h, 2))))))
    if name in ("total_seconds", "item", "copy", "sum", "mean", "min", "max", "prod"):
        return v
    if name in ("any", "all"):
        return l.truth(v)
    if name == "astype":
        return cast_kind(l, v, *args)
    if name == "round":
        return _round(l, v, *args)
    if name in ("ravel", "flatten"):
        return at_least(to_arr(v), 1)
    if name == "reshape":
        return reshape(l, to_arr(v), args)
    if name == "squeeze":
        return v
    if name == "tolist":
        return v
    raise OpqArg()
