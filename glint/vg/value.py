"""Abstract values: arrays of terms with concrete and symbolic dimensions."""
import numpy as np

from . import term as T


class Unsupported(Exception):
    """The construct is outside the abstract domain: the result is undecided."""


class Arr:
    """Array of terms. A symbolic dimension has extent 1 in `data` (generic row)."""
    __slots__ = ("data", "dims", "kind")

    def __init__(self, data, dims, kind=None):
        self.data = data
        self.dims = tuple(dims)
        self.kind = kind

    @property
    def ndim(self):
        return len(self.dims)

    def elems(self):
        return list(self.data.flat)

    def copy(self):
        return Arr(self.data.copy(), self.dims, self.kind)

    def __repr__(self):
        return f"Arr{self.dims}{[T.show(x, 3) for x in self.data.flat][:6]}"


class Obj:
    def __init__(self, cls, attrs=None, label=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.label = label

    def __repr__(self):
        return f"<Obj {self.cls.name if hasattr(self.cls, 'name') else self.cls}>"


class Gate:
    """A value that is `a` if cond holds, else `b` (kinds that do not merge)."""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"Gate({T.show(self.cond, 2)},{self.a!r},{self.b!r})"


class DefaultV(dict):
    """A defaultdict."""

    def __init__(self, factory, *args, **kw):
        super().__init__(*args, **kw)
        self.factory = factory

    def copy(self):
        return DefaultV(self.factory, self)


class SetV(list):
    """A set whose elements are known to differ."""


class Opq:
    """A value of unknown kind and shape, identified by a term."""
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return f"Opq({T.show(self.node, 2)})"


class FuncRef:
    def __init__(self, func):
        self.func = func


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassRef:
    def __init__(self, cls):
        self.cls = cls


class ModRef:
    def __init__(self, mod):
        self.mod = mod


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class ExtM:
    """Method of a builtin or external value."""

    def __init__(self, base, name):
        self.base, self.name = base, name


class Closure:
    def __init__(self, node, env, func):
        self.node, self.env, self.func = node, env, func


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Native:
    """A function supplied by the analysis (stands for a user callback)."""

    def __init__(self, fn):
        self.fn = fn


class Sel:
    """Elements of an array (of known shape) where a leading mask holds."""

    def __init__(self, full, mask):
        self.full, self.mask = full, mask

    def like(self, mask):
        return self.mask is mask or (self.mask.dims == mask.dims and all(
            x is y or (T.is_num(x) and T.is_num(y) and x == y)
            for x, y in zip(self.mask.data.flat, mask.data.flat)))


def is_scalar(v):
    return isinstance(v, (int, float, bool, T.Node))


def obj_array(shape):
    return np.empty(shape, dtype=object)


def full(dims, value, kind=None):
    shape = tuple(d if isinstance(d, int) else 1 for d in dims)
    a = obj_array(shape)
    a.fill(value)
    if a.ndim == 0:
        a[()] = value
    return Arr(a, dims, kind)


def sym_array(name, dims, domain="real"):
    """Input array whose elements are distinct symbols."""
    shape = tuple(d if isinstance(d, int) else 1 for d in dims)
    sd = [d for d in dims if not isinstance(d, int)]
    a = obj_array(shape)
    conc = [i for i, d in enumerate(dims) if isinstance(d, int)]
    for idx in np.ndindex(*shape):
        label = name
        if conc:
            label += "[" + ",".join(
                str(idx[i]) if i in conc else ":" for i in range(len(dims))) + "]"
        a[idx] = T.sym(label, sd, domain)
    return Arr(a, dims, "f")


def kind_of(v):
    if isinstance(v, Arr):
        return v.kind
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "f"
    if T.is_boolean(v):
        return "b"
    if isinstance(v, T.Node):
        return node_kind(v)
    return None


def node_kind(v, depth=6):
    """Kind of a scalar term, where its operations determine it."""
    if not isinstance(v, T.Node):
        return kind_of(v)
    if v.op == "sym":
        dom = v.attr[2]
        if dom in ("posint", "int"):
            return "i"
        if isinstance(dom, str) or dom[0] == "range":
            return "f"
        return None
    if depth and v.op in ("add", "sub", "mul"):
        ks = [node_kind(a, depth - 1) for a in v.args]
        return "i" if all(k == "i" for k in ks) else "f" if "f" in ks else None
    if v.op in ("div", "sin", "cos", "sqrt"):
        return "f"
    return None


def promote(*kinds):
    if "o" in kinds:
        return "o"
    if any(k is None for k in kinds):
        return "f" if "f" in kinds else None
    for k in ("f", "i", "b"):
        if k in kinds:
            return k
    return None


def to_arr(v):
    if isinstance(v, Arr):
        return v
    if is_scalar(v):
        a = obj_array(())
        a[()] = v
        return Arr(a, (), kind_of(v))
    if isinstance(v, (list, tuple)):
        if not len(v):
            return Arr(obj_array((0,)), (0,), "f")
        xs = []
        for x in v:
            xs.append(to_arr(x))
        return stack(xs, 0)
    if v is None:
        return to_arr(float("nan"))
    if isinstance(v, Obj):
        a = obj_array(())
        a[()] = v
        return Arr(a, (), "o")
    raise Unsupported(f"array from {type(v).__name__}")


def simplify0(a):
    """0-d arrays become scalars."""
    if isinstance(a, Arr) and a.ndim == 0:
        return a.data[()]
    return a


def merge_dim(x, y):
    if isinstance(x, int) and x == 1:
        return y
    if isinstance(y, int) and y == 1:
        return x
    if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
        return x
    if isinstance(x, int) and isinstance(y, int):
        raise ShapeError(f"shapes {x} and {y} do not broadcast")
    raise Unsupported(f"dimensions {x} and {y}")


class ShapeError(Unsupported):
    pass


def broadcast_dims(*ds):
    n = max((len(d) for d in ds), default=0)
    out = []
    for i in range(n):
        cur = 1
        for d in ds:
            j = i - (n - len(d))
            if j >= 0:
                cur = merge_dim(cur, d[j])
        out.append(cur)
    return tuple(out)


def elementwise(fn, *vals, kind="promote"):
    """Apply a term function elementwise with broadcasting."""
    if all(is_scalar(v) for v in vals):
        return fn(*vals)
    sels = [v for v in vals if isinstance(v, Sel)]
    if sels:
        m = sels[0].mask
        if any(not v.like(m) or v.full.ndim != sels[0].full.ndim for v in sels):
            raise Unsupported("elements of different selections")
        rest = sels[0].full.ndim - m.ndim
        if any(isinstance(v, Arr) and v.ndim > rest or isinstance(v, (list, tuple))
               for v in vals):
            raise Unsupported("arrays with selected elements")
        return Sel(elementwise(fn, *[v.full if isinstance(v, Sel) else v for v in vals],
                               kind=kind), m)
    arrs = [to_arr(v) for v in vals]
    dims = broadcast_dims(*[a.dims for a in arrs])
    shape = tuple(d if isinstance(d, int) else 1 for d in dims)
    datas = [np.broadcast_to(a.data, shape) for a in arrs]
    out = obj_array(shape)
    for idx in np.ndindex(*shape):
        out[idx] = fn(*[d[idx] for d in datas])
    k = promote(*[a.kind for a in arrs]) if kind == "promote" else kind
    r = Arr(out, dims, k)
    if r.ndim == 0:
        return r.data[()]
    return r


def stack(xs, axis):
    dims = broadcast_dims(*[x.dims for x in xs])
    for x in xs:
        if len(x.dims) != len(dims):
            raise Unsupported("ragged array")
    shape = tuple(d if isinstance(d, int) else 1 for d in dims)
    datas = [np.broadcast_to(x.data, shape) for x in xs]
    if axis < 0:
        axis += len(dims) + 1
    a = np.stack(datas, axis=axis) if datas else obj_array((0,))
    k = promote(*[x.kind for x in xs])
    return Arr(a, dims[:axis] + (len(xs),) + dims[axis:], k)


def concat(xs, axis):
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs):
        raise ShapeError("concatenate arrays of different rank")
    if axis < 0:
        axis += nd
    if any(not isinstance(x.dims[axis], int) for x in xs):
        if len(xs) == 1:
            return xs[0].copy()
        raise Unsupported("concatenate along a symbolic dimension")
    rest = broadcast_dims(*[x.dims[:axis] + x.dims[axis + 1:] for x in xs])
    datas = []
    for x in xs:
        d = rest[:axis] + (x.dims[axis],) + rest[axis:]
        shape = tuple(k if isinstance(k, int) else 1 for k in d)
        datas.append(np.broadcast_to(x.data, shape))
    a = np.concatenate(datas, axis=axis)
    return Arr(a, rest[:axis] + (a.shape[axis],) + rest[axis:],
               promote(*[x.kind for x in xs]))


def merge(cond, a, b, depth=0):
    """Value that is `a` where cond holds, else `b`."""
    if a is b:
        return a
    if T.is_num(cond):
        return a if cond else b
    if isinstance(a, Gate) and a.cond is cond:
        a = a.a
    if isinstance(b, Gate) and b.cond is cond:
        b = b.b
    if is_scalar(a) and is_scalar(b):
        if T.is_boolean(a) != T.is_boolean(b) and (T.is_num(a) or T.is_num(b)):
            return Gate(cond, a, b) if not (T.is_num(a) and T.is_num(b) and a == b) \
                else a
        return T.ite(cond, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.dims) == len(b.dims) and all(
                x is y or x == y for x, y in zip(a.dims, b.dims)):
            r = elementwise(lambda x, y: T.ite(cond, x, y), a, b)
            r.kind = a.kind if a.kind == b.kind else promote(a.kind, b.kind)
            return r
        return Gate(cond, a, b)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b) and \
            depth < 4:
        return type(a)(merge(cond, x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and depth < 4:
        return {k: merge(cond, a[k], b[k], depth + 1) for k in a}
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.node is b.node:
            return a
    if type(a) is type(b) and isinstance(a, (Ext,)) and a.name == b.name:
        return a
    if type(a) is type(b) and isinstance(a, FuncRef) and a.func is b.func:
        return a
    if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and \
            a.self_ is b.self_:
        return a
    return Gate(cond, a, b)
