"""Equality of terms by random interpretation.

Two terms are compared by interpreting them over the reals at random points of their
declared domains (Gulwani & Necula, POPL 2003/2004).  Structural identity is decided by
hash-consing first.  Only terms are interpreted here; no repository code is run.
"""
import zlib

import numpy as np

from . import term as T

S = 96           # sample points, interpreted together
SIZES = [5, 4, 3, 2]
FT = np.longdouble


class Interp:
    def __init__(self, roots, seed=1, samples=S, sizes=SIZES):
        self.rng = np.random.default_rng(seed)
        self.S = samples
        dims = set()
        for r in roots:
            for n in T.walk(r):
                dims |= n.dims
                if n.op in ("dimlen", "rowindex", "at"):
                    dims.add(n.attr)
                elif isinstance(n.attr, tuple) and n.attr and isinstance(
                        n.attr[0], T.Dim):
                    dims.add(n.attr[0])
        self.dims = sorted(dims, key=lambda d: d.name)
        self.axis = {d: i + 1 for i, d in enumerate(self.dims)}
        self.size = {d: sizes[i % len(sizes)] for i, d in enumerate(self.dims)}
        self.memo = {}

    def shape(self, dims):
        return (self.S,) + tuple(self.size[d] if d in dims else 1 for d in self.dims)

    def sample(self, name, dims, domain):
        h = zlib.crc32(repr((name, self.S)).encode())
        rng = np.random.default_rng([h, 7])
        shp = self.shape(dims)
        n = int(np.prod(shp))
        if callable(domain):
            return np.asarray(domain(rng, shp), dtype=FT)
        if domain == "bool":
            return rng.random(shp) < 0.5
        if isinstance(domain, tuple) and domain[0] == "choice":
            return np.asarray(rng.choice(np.array(domain[1], dtype=float), shp), dtype=FT)
        if isinstance(domain, tuple) and domain[0] == "range":
            return np.asarray(rng.uniform(domain[1], domain[2], shp), dtype=FT)
        if domain == "pos":
            return np.asarray(rng.uniform(0.2, 5, shp), dtype=FT)
        if domain == "posint":
            return np.asarray(rng.integers(2, 40, shp), dtype=FT)
        if domain == "int":
            return np.asarray(rng.integers(-9, 10, shp), dtype=FT)
        if domain == "unit":
            return np.asarray(rng.uniform(0.02, 0.98, shp), dtype=FT)
        v = rng.normal(0, 1, shp) * np.exp(rng.normal(0, 0.7, shp))
        if domain == "sparse":
            # coefficients that are exactly zero at a third of the points
            off = rng.random((self.S,) + (1,) * (len(shp) - 1)) < 0.34
            v = np.where(off, 0.0, v)
        del n
        return np.asarray(v, dtype=FT)

    def ev(self, n):
        if not isinstance(n, T.Node):
            if isinstance(n, bool):
                return np.full((1,) * (len(self.dims) + 1), n)
            return np.full((1,) * (len(self.dims) + 1), float(n), dtype=FT)
        todo = [n]
        while todo:
            x = todo[-1]
            if x in self.memo:
                todo.pop()
                continue
            need = [a for a in x.args if isinstance(a, T.Node) and a not in self.memo]
            if need:
                todo.extend(need)
                continue
            with np.errstate(all="ignore"):
                self.memo[x] = self.node(x)
            todo.pop()
        return self.memo[n]

    def get(self, a):
        return self.memo[a] if isinstance(a, T.Node) else self.ev(a)

    def num(self, a):
        v = self.get(a)
        return v.astype(FT) if v.dtype == bool else v

    def boo(self, a):
        v = self.get(a)
        return v if v.dtype == bool else (v != 0)

    def node(self, x):
        op = x.op
        if op == "sym":
            return self.sample(x.attr[0], x.dims, x.attr[2])
        if op == "dimlen":
            return np.full((1,) * (len(self.dims) + 1), float(self.size[x.attr]), FT)
        if op == "rowindex":
            shp = [1] * (len(self.dims) + 1)
            k = self.size[x.attr]
            shp[self.axis[x.attr]] = k
            return np.arange(k).astype(FT).reshape(shp)
        if op == "at":
            return self.at(x)
        if op == "call":
            return self.call(x)
        if op[0] == "r" and isinstance(x.attr, tuple):
            return self.red(x)
        if op in ("and", "or", "not", "ite"):
            if op == "not":
                return ~self.boo(x.args[0])
            if op == "ite":
                c = self.boo(x.args[0])
                a, b = self.get(x.args[1]), self.get(x.args[2])
                if a.dtype != b.dtype:
                    a, b = self.num(x.args[1]), self.num(x.args[2])
                return np.where(c, a, b)
            out = self.boo(x.args[0])
            for a in x.args[1:]:
                out = (out & self.boo(a)) if op == "and" else (out | self.boo(a))
            return out
        v = [self.num(a) for a in x.args]
        if op == "rank":
            return np.sort(np.stack(np.broadcast_arrays(*v)), axis=0)[x.attr]
        return BIN[op](*v)

    def expand(self, v, d):
        ax = self.axis[d]
        if v.shape[ax] == 1:
            v = np.repeat(v, self.size[d], axis=ax)
        return v

    def red(self, x):
        d, extra = x.attr
        ax = self.axis[d]
        body, mask = x.args
        m = self.boo(mask)
        v = self.num(body) if x.op not in ("rany", "rall") else self.boo(body)
        v, m = np.broadcast_arrays(self.expand(v, d), self.expand(m, d))
        if x.op in ("rsum", "rnansum"):
            if x.op == "rnansum":
                v = np.where(np.isnan(v), 0, v)
            return np.where(m, v, 0).sum(axis=ax, keepdims=True)
        if x.op in ("rmean", "rnanmean"):
            if x.op == "rnanmean":
                m = m & ~np.isnan(v)
            return np.where(m, v, 0).sum(axis=ax, keepdims=True) / m.sum(
                axis=ax, keepdims=True).astype(FT)
        if x.op == "rprod":
            return np.where(m, v, 1).prod(axis=ax, keepdims=True)
        if x.op in ("rmin", "rnanmin"):
            if x.op == "rnanmin":
                m = m & ~np.isnan(v)
            return np.where(m, v, np.inf).min(axis=ax, keepdims=True)
        if x.op in ("rmax", "rnanmax"):
            if x.op == "rnanmax":
                m = m & ~np.isnan(v)
            return np.where(m, v, -np.inf).max(axis=ax, keepdims=True)
        if x.op in ("rargmin", "rargmax"):
            w = np.where(m, v, np.inf if x.op == "rargmin" else -np.inf)
            f = np.argmin if x.op == "rargmin" else np.argmax
            return np.expand_dims(f(w, axis=ax), ax).astype(FT)
        if x.op == "rany":
            return (v & m).any(axis=ax, keepdims=True)
        if x.op == "rall":
            return (v | ~m).all(axis=ax, keepdims=True)
        if x.op == "rcumsum":
            return np.where(m, v, 0).cumsum(axis=ax)
        if x.op == "rcumprod":
            return np.where(m, v, 1).cumprod(axis=ax)
        if x.op == "rmedian":
            return np.ma.median(np.ma.masked_array(v, ~m), axis=ax, keepdims=True).data
        raise KeyError(x.op)

    def at(self, x):
        d = x.attr
        ax = self.axis[d]
        v = self.get(x.args[0])
        idx = self.num(x.args[1])
        m = self.boo(x.args[2])
        v = self.expand(v, d)
        k = self.size[d]
        if m.size > 1 or not m.all():
            # position of the idx-th selected row
            mm = self.expand(m, d)
            shp = np.broadcast_shapes(mm.shape, v.shape)
            mm, v = np.broadcast_to(mm, shp), np.broadcast_to(v, shp)
            order = np.argsort(~mm, axis=ax, kind="stable")
            v = np.take_along_axis(v, order, axis=ax)
            cnt = mm.sum(axis=ax, keepdims=True)
            idx = np.where(idx < 0, idx + cnt, idx)
        else:
            idx = np.where(idx < 0, idx + k, idx)
        ii = np.nan_to_num(idx).astype(int)
        bad = (ii < 0) | (ii >= k)
        ii = np.clip(ii, 0, k - 1)
        shp = list(np.broadcast_shapes(ii.shape, tuple(
            1 if i == ax else s for i, s in enumerate(v.shape))))
        if ii.shape[ax] > 1:
            v = np.broadcast_to(v, [max(a, b) if i != ax else b for i, (a, b) in
                                    enumerate(zip(ii.shape, v.shape))])
            ii = np.broadcast_to(ii, [s if i != ax else ii.shape[ax]
                                      for i, s in enumerate(v.shape)])
            out = np.take_along_axis(v, ii, axis=ax)
        else:
            vs = np.broadcast_to(v, [s if i != ax else k for i, s in enumerate(shp)])
            out = np.take_along_axis(vs, np.broadcast_to(ii, shp), axis=ax)
        if bad.any():
            out = np.where(bad, np.nan, out.astype(FT))
        return out

    def call(self, x):
        """A smooth pseudo-random function of the arguments, keyed by name."""
        h = zlib.crc32(repr((x.attr, len(x.args))).encode())
        rng = np.random.default_rng([h, 11])
        acc = rng.normal()
        for a in x.args:
            v = self.num(a)
            v = np.where(np.isfinite(v), v, 0.123)
            acc = acc + rng.normal() * np.sin(v * rng.uniform(0.3, 1.7) + rng.normal())
        if not x.args:
            acc = np.full((1,) * (len(self.dims) + 1), acc, dtype=FT)
        # dims of the result not carried by arguments
        for d in x.dims:
            if acc.shape[self.axis[d]] == 1:
                shp = [1] * (len(self.dims) + 1)
                shp[self.axis[d]] = self.size[d]
                acc = acc + rng.normal(size=self.size[d]).reshape(shp)
        return np.asarray(acc, dtype=FT)


def _sign(a):
    return np.sign(a)


BIN = {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide,
    "floordiv": np.floor_divide, "mod": np.mod, "pow": np.power, "neg": np.negative,
    "abs": np.abs, "sign": _sign, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos,
    "tan": np.tan, "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan,
    "arctan2": np.arctan2, "exp": np.exp, "log": np.log, "log2": np.log2,
    "log10": np.log10, "floor": np.floor, "ceil": np.ceil, "rint": np.rint,
    "trunc": np.trunc, "min2": np.minimum, "max2": np.maximum,
    "lt": np.less, "le": np.less_equal, "eq": np.equal, "ne": np.not_equal,
    "isnan": np.isnan, "isfinite": np.isfinite,
}


def ordering(xs):
    """Sorting permutation and ties of scalar terms, if the same at every point.

    Returns (order, same) where same[i] tells that the i-th and (i+1)-th terms in
    order are equal, or None.
    """
    roots = [x for x in xs if isinstance(x, T.Node)]
    if any(x.dims or T.is_opaque(x) for x in roots):
        return None
    it = Interp(roots)
    v = [np.broadcast_to(it.ev(x).astype(FT).reshape(-1), (it.S,)) for x in xs]
    v = np.stack(v)
    if not np.isfinite(v).all():
        return None
    order = np.argsort(v[:, 0], kind="stable")
    d = np.diff(v[order], axis=0)
    tol = 1e-12 * (1 + np.abs(v).max())
    same = (np.abs(d) <= tol).all(axis=1)
    if not ((d > tol).all(axis=1) | same).all():
        return None
    return [int(i) for i in order], [bool(b) for b in same]


class Verdict:
    def __init__(self, equal, why="", witness=None):
        self.equal, self.why, self.witness = equal, why, witness


def _close(a, b, tol):
    with np.errstate(all="ignore"):
        a = np.asarray(a, FT)
        b = np.asarray(b, FT)
        same = (a == b) | (np.isnan(a) & np.isnan(b)) | (
            np.isfinite(a) & np.isfinite(b) & (
                np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))
    return same


def equal(a, b, given=True, tol=1e-9, allow_opaque=False, seed=1):
    """Verdict on a == b wherever `given` holds. equal: True/False/None (undecided)."""
    if a is b and (isinstance(a, T.Node) or type(a) is type(b)):
        return Verdict(True, "identical value numbers")
    if T.is_num(a) and T.is_num(b):
        if a == b or (a != a and b != b):
            return Verdict(True, "constants")
    it = Interp([a, b, given], seed)
    va, vb, g = it.num(a) if False else it.ev(a), it.ev(b), it.ev(given)
    va = va.astype(FT) if va.dtype == bool else va
    vb = vb.astype(FT) if vb.dtype == bool else vb
    g = g if g.dtype == bool else g != 0
    va, vb, g = np.broadcast_arrays(va, vb, g)
    if not g.any():
        return Verdict(None, "no interpretation satisfies the premise")
    same = _close(va, vb, tol)
    if (same | ~g).all():
        return Verdict(True, f"equal at all {int(g.sum())} interpretations")
    if (T.is_opaque(a) or T.is_opaque(b) or T.is_opaque(given)) and not allow_opaque:
        return Verdict(None, "differs, but involves uninterpreted operations")
    bad = np.argwhere(~same & g)
    i = tuple(bad[0])
    wit = {}
    for s in sorted(T.symbols(a, b), key=lambda n: str(n.attr[0])):
        v = it.ev(s)
        j = tuple(k if v.shape[ax] > 1 else 0 for ax, k in enumerate(i))
        wit[str(s.attr[0])] = round(float(v[j]), 4)
    return Verdict(False, f"differs at {len(bad)} of {int(g.sum())} interpretations: "
                   f"{float(va[i]):.6g} instead of {float(vb[i]):.6g}", wit)


def constant(n):
    """The number that a scalar term has at every interpretation, or None."""
    if not isinstance(n, T.Node):
        return n
    if n.dims or T.is_opaque(n):
        return None
    if any(x.dims or x.op == "dimlen" for x in T.walk(n)):
        # lengths have only one value in an interpretation
        ks = {_constant(n, s) for s in (SIZES, (1,), (7, 6, 8, 9))}
        return ks.pop() if len(ks) == 1 else None
    return _constant(n, SIZES)


def _constant(n, sizes):
    v = Interp([n], sizes=sizes).ev(n)
    if v.dtype == bool:
        return bool(v.flat[0]) if (v == v.flat[0]).all() else None
    k = float(v.flat[0])
    if k != k or abs(k) == float("inf") or not (np.abs(v - k) <= 1e-9 * (1 + abs(k))).all():
        return None
    return int(round(k)) if abs(k - round(k)) < 1e-9 else k
