"""Alias and effect analysis.

A flow-sensitive, interprocedural abstract interpretation of every function of the
package.  An abstract value is a set of *locations* (a root: parameter, module global
or allocation site; plus an access path) it may be, or be a view of.  Numpy view
semantics are built in.  Each function gets a summary: which caller-visible locations
it may write, what it returns, and what it stores where.
"""
import ast
from collections import namedtuple

from . import model
from .types_ import (ANY, BOOL, BOT, CALL, MOD, NDA, NONE, NUM, STR, T,
                     from_annotation, obj, tdict, tlist, ttuple)

Loc = namedtuple("Loc", "root path")
MAXPATH = 4
EMPTY = frozenset()


class Value:
    __slots__ = ("refs", "typ", "calls")

    def __init__(self, refs=EMPTY, typ=ANY, calls=EMPTY):
        self.typ = typ
        self.refs = EMPTY if typ.immutable else frozenset(refs)
        self.calls = frozenset(calls)

    def key(self):
        return (self.refs, self.typ.key(), self.calls)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def join(self, o):
        if o is None or o is self:
            return self
        return Value(self.refs | o.refs, self.typ.join(o.typ), self.calls | o.calls)

    def typed(self, typ):
        return Value(self.refs, typ, self.calls)

    def __repr__(self):
        return f"V({set(self.refs)},{self.typ},{self.calls})"


BOTV = Value(EMPTY, BOT)


def fresh(typ=ANY):
    return Value(EMPTY, typ)


class State:
    __slots__ = ("env", "heap")

    def __init__(self, env=None, heap=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap))


def extend(loc, step):
    if len(loc.path) >= MAXPATH or (loc.path and loc.path[-1] == step == "[]"):
        return loc
    return Loc(loc.root, loc.path + (step,))


class Mut:
    """A may-write: location, step written, how and where it happens."""
    __slots__ = ("loc", "step", "how", "func", "line", "via", "lazy")

    def __init__(self, loc, step, how, func, line, via=(), lazy=False):
        self.loc, self.step, self.how = loc, step, how
        self.func, self.line, self.via = func, line, via
        self.lazy = lazy

    def key(self):
        return (self.loc, self.step, self.how, self.lazy)

    def describe(self):
        root = self.loc.root
        base = root[1] if root[0] == "p" else ".".join(map(str, root[1:]))
        path = "".join(x if x == "[]" else f".{x}" for x in map(str, self.loc.path))
        tgt = f"{base}{path}" + (self.step if self.step == "[]" else f".{self.step}")
        chain = " -> ".join([f"{v[0]}" for v in self.via])
        return (f"`{tgt}` written by {self.how} at {self.func.module.rel}:{self.line} "
                f"in {self.func.short}" + (f" (reached through {chain})" if chain else ""))


class Summary:
    def __init__(self):
        self.muts = {}      # key -> Mut
        self.ret = BOTV
        self.heap = {}      # exit heap: (Loc, step) -> Value
        self.calls = set()  # resolved callees
        self.unclear = False    # copies under a condition that was not related

    def key(self):
        return (frozenset(self.muts), self.ret.key(),
                frozenset((k, v.key()) for k, v in self.heap.items()))


VIEW_FUNCS = {
    "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d",
    "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose",
    "expand_dims", "broadcast_to", "broadcast_arrays", "split", "array_split",
    "vsplit", "hsplit", "dsplit", "swapaxes", "moveaxis", "rollaxis", "flip",
    "fliplr", "flipud", "rot90", "diagonal", "real", "imag", "nditer", "asmatrix",
    "require",
}
MUT_FUNCS = {
    "copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0,
    "shuffle": 0, "put_along_axis": 0,
}
ND_VIEW_METHODS = {
    "reshape", "ravel", "view", "transpose", "squeeze", "swapaxes", "diagonal",
}
ND_MUT_METHODS = {"sort", "fill", "resize", "partition", "put", "itemset", "setfield",
                  "setflags"}
C_MUT_METHODS = {"append", "extend", "insert", "remove", "clear", "sort", "reverse",
                 "update", "add", "discard", "appendleft", "popleft",
                 "difference_update", "intersection_update"}
C_MUT_RET = {"pop", "setdefault", "popitem"}
ELEM_METHODS = {"get", "values", "items", "keys", "iter", "findall"}
ND_VIEW_ATTRS = {"T", "flat", "real", "imag", "base", "mT"}
ND_SCALAR_ATTRS = {"shape", "size", "ndim", "dtype", "itemsize", "nbytes", "strides"}
CONTAINERS = {"list", "tuple", "set", "frozenset", "dict", "sorted", "reversed", "zip",
              "enumerate", "map", "filter", "iter", "chain", "OrderedDict",
              "defaultdict", "deque"}
SCALAR_BUILTINS = {"len", "int", "float", "str", "bool", "isinstance", "hasattr",
                   "callable", "repr", "hash", "id", "abs", "round", "any", "all",
                   "issubclass", "ord", "chr", "format", "type", "print", "open",
                   "range", "slice", "divmod", "pow", "super", "vars", "input",
                   "exit"}


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self.attr_types = {}     # (class, attr) -> T
        self.global_types = {}
        self.stats = {"functions": 0, "passes": 0, "calls_resolved": 0,
                      "calls_external": 0, "writes": 0}
        self.subclasses = {}
        for m in prog.modules.values():
            for c in m.classes.values():
                for b in c.mro():
                    self.subclasses.setdefault(b.name, set()).add(c)

    def attr_type(self, classes, attr):
        out = None
        for cn in classes:
            cs = set()
            for c in self.prog.class_by_name.get(cn, []):
                cs |= set(c.mro()) | self.subclasses.get(cn, set())
            for c in cs:
                t = self.attr_types.get((c.name, attr))
                if t is not None:
                    out = t if out is None else out.join(t)
        return out if out is not None else ANY

    def note_attr(self, classes, attr, typ):
        if typ is BOT:
            return
        for cn in classes:
            old = self._new_types.get((cn, attr))
            self._new_types[(cn, attr)] = typ if old is None else old.join(typ)

    def run(self, max_passes=8):
        funcs = self.prog.funcs
        for f in funcs:
            self.sums[f] = Summary()
        self._new_types = {}
        for p in range(max_passes):
            changed = False
            types_before = self.attr_types
            self._new_types = {}
            for k in ("calls_resolved", "calls_external", "writes"):
                self.stats[k] = 0
            for f in funcs:
                old = self.sums[f].key()
                self.sums[f] = Analyzer(self, f).analyze()
                if self.sums[f].key() != old:
                    changed = True
            self.attr_types = self._new_types
            self.stats["passes"] = p + 1
            if not changed and types_before == self.attr_types:
                break
        self.stats["functions"] = len(funcs)
        return self


def lazy_steps(f):
    """Attributes a function may rebind on its own object as a cache.

    A property getter `P` may fill `_P`; a reader method fills the array of a raster.
    """
    if f.cls is None:
        return frozenset()
    if f.is_property:
        return frozenset({"_" + f.name})
    if f.name == "read":
        return frozenset({"_array", "array"})
    return frozenset()


def is_copy(e):
    if not isinstance(e, ast.Call):
        return False
    fn = e.func
    return "copy" in (fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", ""))


def copies(body):
    """Whether a block binds a copy."""
    return any(isinstance(n, (ast.Assign, ast.AnnAssign, ast.Return)) and
               n.value is not None and is_copy(n.value)
               for st in body for n in ast.walk(st))


def partitions(f):
    """Split on None-ness of optional parameters and on local flags.

    Trace partitioning, only in functions that guard a copy (`if ...: x = x.copy()`) or
    test object identity, so that the guard is related to the writes it protects.
    Yields (not-None parameters, None parameters, {flag: bool}).
    """
    def isnone(n):
        return isinstance(n, ast.Constant) and n.value is None

    tests, guards, assigned, tested = [], False, {}, set()
    a = f.node.args
    optional = {p.arg for p, d in zip(reversed(a.posonlyargs + a.args),
                                      reversed(a.defaults)) if isnone(d)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.Is, ast.IsNot)):
            if isnone(n.comparators[0]):
                if isinstance(n.left, ast.Name) and n.left.id in optional and \
                        n.left.id not in tests:
                    tests.append(n.left.id)
            elif not isinstance(n.comparators[0], ast.Constant):
                guards = True
        if isinstance(n, ast.If):
            tested |= {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
            for st in ast.walk(n):
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call):
                    fn = st.value.func
                    nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(
                        fn, "id", "")
                    if "copy" in nm:
                        guards = True
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name):
            assigned.setdefault(n.targets[0].id, []).append(n.value)
    if not guards:
        return [((), (), {})]
    flags = [k for k, vs in assigned.items() if len(vs) == 1 and k in tested and
             isinstance(vs[0], (ast.Compare, ast.BoolOp, ast.UnaryOp))]
    tests, flags = tests[:4], flags[:4]
    if len(tests) + len(flags) > 6:
        tests = tests[: 6 - len(flags)]
    out = []
    for k in range(2 ** len(tests)):
        for j in range(2 ** len(flags)):
            out.append((tuple(t for i, t in enumerate(tests) if not k >> i & 1),
                        tuple(t for i, t in enumerate(tests) if k >> i & 1),
                        {t: bool(j >> i & 1) for i, t in enumerate(flags)}))
    return out


class Analyzer:
    def __init__(self, eng, func):
        self.eng = eng
        self.prog = eng.prog
        self.f = func
        self.m = func.module
        self.sum = Summary()
        self.returns = []
        self.depth = 0
        self.loopstack = []
        self.lazy_steps = lazy_steps(func)

    # -- entry -----------------------------------------------------------
    def analyze(self):
        st = State()
        a = self.f.node.args
        sname = self.f.self_name()
        pos = a.posonlyargs + a.args
        for p in pos + a.kwonlyargs:
            typ = from_annotation(self.prog, self.m, p.annotation) \
                if p.annotation is not None else ANY
            calls = EMPTY
            if p.arg == sname:
                if self.f.kind == "class":
                    typ, calls = T({"cls"}), frozenset({("class", self.f.cls)})
                else:
                    typ = obj(self.f.cls.name)
            default_none = False
            if p in pos:
                i = pos.index(p) - (len(pos) - len(a.defaults))
                if i >= 0:
                    d = a.defaults[i]
                    default_none = isinstance(d, ast.Constant) and d.value is None
            if default_none and not typ.unknown:
                typ = typ.join(NONE)
            st.env[p.arg] = Value({Loc(("p", p.arg), ())}, typ, calls)
        if a.vararg:
            site = Loc(("f", ("va", a.vararg.arg)), ())
            st.env[a.vararg.arg] = Value({site}, ttuple())
            st.heap[(site, "[]")] = Value({Loc(("p", a.vararg.arg), ("[]",))}, ANY)
        if a.kwarg:
            site = Loc(("f", ("kw", a.kwarg.arg)), ())
            st.env[a.kwarg.arg] = Value({site}, tdict())
            st.heap[(site, "[]")] = Value({Loc(("p", a.kwarg.arg), ("[]",))}, ANY)
        self.locals = model.local_names(self.f.node)
        for notnone, isnone, self.flags in partitions(self.f):
            st2 = st.copy()
            self.notnone = {}
            for n in isnone:
                st2.env[n] = fresh(NONE)
            for n in notnone:
                v = st2.env[n]
                if v.typ.kinds - {"none"} or v.typ.classes:
                    v = v.typed(T(v.typ.kinds - {"none"}, v.typ.classes, v.typ.elem))
                st2.env[n] = self.notnone[n] = v
            out = self.block(self.f.node.body, st2)
            if out is not None:
                self.returns.append((fresh(NONE), out))
        ret = BOTV
        heap = None
        for v, s in self.returns:
            ret = ret.join(v)
            heap = dict(s.heap) if heap is None else self.join_heap(heap, s.heap)
        self.sum.ret = ret
        self.sum.heap = self.reachable(heap or {}, ret)
        return self.sum

    def reachable(self, heap, ret):
        """Keep param-rooted keys and sites reachable from them or the result."""
        keep, todo, seen = {}, set(), set()
        byloc = {}
        for (l, s), v in heap.items():
            byloc.setdefault(l, []).append((s, v))
        for l in byloc:
            if l.root[0] != "f":
                todo.add(l)
        todo |= {l for l in ret.refs if l.root[0] == "f"}
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            for s, v in byloc.get(l, ()):
                keep[(l, s)] = v
                todo |= {x for x in v.refs if x.root[0] == "f"} - seen
        return keep

    # -- state helpers ---------------------------------------------------
    def join_heap(self, a, b):
        out = {}
        for k in set(a) | set(b):
            va = a.get(k)
            vb = b.get(k)
            if va is None:
                va = self.missing(a, k)
            if vb is None:
                vb = self.missing(b, k)
            out[k] = va.join(vb)
        return out

    def missing(self, heap, k):
        if isinstance(k[1], int):
            v = heap.get((k[0], "[]"))
            return v if v is not None else self.default_read(k[0], "[]")
        return self.default_read(k[0], k[1])

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            env[k] = va if vb is None else (vb if va is None else va.join(vb))
        return State(env, self.join_heap(a.heap, b.heap))

    def default_read(self, loc, step, typ=ANY):
        if loc.root[0] == "f":
            site = loc.root[1]
            while isinstance(site, tuple) and len(site) == 3 and site[0] == "@":
                site = site[2]
            if site[-1] == "deep":
                # every field of a deep copy is an object of its own
                return Value({extend(loc, step)}, typ)
            return BOTV
        return Value({extend(loc, step)}, typ)

    def read(self, st, val, step):
        """Read a field / element of a value."""
        if step == "[]":
            typ = val.typ.elem or ANY
            if val.typ.only("str", "bytes", "range"):
                return fresh(STR if "str" in val.typ.kinds else NUM)
        else:
            typ = self.eng.attr_type(val.typ.classes, step)
        out = None
        for l in val.refs:
            v = st.heap.get((l, step))
            if v is None:
                v = self.default_read(l, step, typ)
            if v is not BOTV:
                out = v if out is None else out.join(v)
        if out is None:
            return fresh(typ)
        if out.typ.unknown and not typ.unknown:
            out = Value(out.refs, typ, out.calls)
        return out

    def write(self, st, val, step, new, how, node, record=True):
        self.eng.stats["writes"] += 1
        if step != "[]":
            self.eng.note_attr(val.typ.classes, step, new.typ)
        strong = len(val.refs) == 1 and step != "[]"
        for l in val.refs:
            if record:
                self.mutate_loc(l, step, how, node,
                                lazy=str(step).startswith("_") and new.typ == NONE)
            if strong:
                st.heap[(l, step)] = new
            else:
                old = st.heap.get((l, step))
                if old is None:
                    old = self.default_read(l, step)
                st.heap[(l, step)] = old.join(new)

    def mutate_loc(self, loc, step, how, node, via=(), line=None, func=None,
                   lazy=False):
        if loc.root[0] == "f":
            return
        lazy = lazy or step in self.lazy_steps or \
            (bool(loc.path) and loc.path[-1] == "_Zf" and step != "[]")
        m = Mut(loc, step, how, func or self.f,
                line if line is not None else getattr(node, "lineno", 0), via, lazy)
        self.sum.muts.setdefault(m.key(), m)

    def mutate(self, st, val, how, node):
        """In-place write of the contents of a value."""
        if val.typ.immutable:
            return
        for l in val.refs:
            self.mutate_loc(l, "[]", how, node)

    def alloc(self, node, tag, typ):
        site = ("f", (self.f.qualname, getattr(node, "lineno", 0),
                      getattr(node, "col_offset", 0), tag))
        return Value({Loc(site, ())}, typ)

    # -- statements ------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else fresh(NONE)
        self.returns.append((v, st))
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        return None

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        return st

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Value(
                EMPTY, MOD, {("ext", a.name if a.asname else a.name.split(".")[0])})
        return st

    def s_ImportFrom(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name] = Value(
                EMPTY, ANY, {("ext", f"{s.module}.{a.name}")})
        return st

    def s_FunctionDef(self, s, st):
        st.env[s.name] = Value(EMPTY, CALL, {("closure", s)})
        return st

    def s_ClassDef(self, s, st):
        return st

    def s_Assert(self, s, st):
        self.ev(s.test, st)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                v = self.ev(t.value, st)
                self.mutate(st, v, "del", t)
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, st)
                for l in v.refs:
                    self.mutate_loc(l, t.attr, "del attribute", t)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if self.flags and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                and s.targets[0].id in self.flags:
            want = self.flags[s.targets[0].id]
            if self.decide(s.value, st) is (not want):
                return None     # this combination cannot happen
        for t in s.targets:
            self.assign(t, v, st, s.value)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, s.value)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        v = self.ev(s.value, st)
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = st.env.get(t.id)
            if cur is None:
                cur = self.name(t, st)
            st.env[t.id] = self.aug(cur, v, s, st, op)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            cur = self.attr(base, t.attr, t, st)
            new = self.aug(cur, v, s, st, op)
            self.setattr(base, t.attr, new, t, st, how="augmented assignment")
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.mutate(st, base, "augmented item assignment", t)
            el = self.read(st, base, "[]")
            if el.typ.may("ndarray") and el.refs and not base.typ.may("ndarray"):
                self.mutate(st, el, "augmented assignment", s)
        return st

    def aug(self, cur, v, s, st, op):
        if cur.typ.immutable:
            return fresh(cur.typ.join(v.typ))
        inplace = (cur.typ.unknown or cur.typ.classes or
                   cur.typ.kinds & {"ndarray", "list", "set", "dict"})
        if inplace:
            self.mutate(st, cur, "augmented assignment", s)
            return cur
        return fresh(cur.typ)

    def assign(self, t, v, st, src=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(base, t.attr, v, t, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            if base.typ.immutable:
                return
            if base.typ.only("ndarray"):
                # element values are copied into the buffer
                self.mutate(st, base, "item assignment", t)
            else:
                self.write(st, base, "[]", v, "item assignment", t)
                idx = t.slice.value if isinstance(t.slice, ast.Constant) else None
                for l in base.refs:
                    if isinstance(idx, int) and len(base.refs) == 1:
                        st.heap[(l, idx)] = v
                    else:
                        self.weaken(st, l, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and \
                    len(src.elts) == len(t.elts) and \
                    not any(isinstance(e, ast.Starred) for e in t.elts + src.elts):
                for tt, ss in zip(t.elts, src.elts):
                    self.assign(tt, self.ev(ss, st), st, ss)
                return
            for i, tt in enumerate(t.elts):
                if isinstance(tt, ast.Starred):
                    self.assign(tt.value, v, st)
                else:
                    self.assign(tt, self.item(v, st, i), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def weaken(self, st, l, v):
        """A write at an unknown index may hit any index known so far."""
        for (l2, i) in list(st.heap):
            if l2 == l and isinstance(i, int):
                st.heap[(l2, i)] = st.heap[(l2, i)].join(v)

    def item(self, v, st, index=None):
        """Element of v by iteration/integer index; views for arrays."""
        if index is not None:
            out = None
            for l in v.refs:
                e = st.heap.get((l, index))
                if e is None:
                    out = None
                    break
                out = e if out is None else out.join(e)
            if out is not None:
                return out
        if v.typ.only("ndarray"):
            return v.typed(NDA)
        el = self.read(st, v, "[]")
        if v.typ.may("ndarray") and not v.typ.unknown and (
                v.typ.elem is None or v.typ.elem.unknown):
            el = Value(el.refs | v.refs, el.typ, el.calls)
        return el

    def setattr(self, base, attr, v, node, st, how="attribute assignment"):
        # property setters
        done = False
        for cn in base.typ.classes:
            for c in self.prog.class_by_name.get(cn, []):
                cands = {c.find_setter(attr)} | {
                    s.setters.get(attr) for s in self.eng.subclasses.get(cn, ())}
                for f in cands - {None}:
                    self.apply(f, [base, v], {}, node, st, bound=True)
                    done = True
        if not done:
            if any(k in base.typ.kinds for k in ("module",)):
                return
            self.write(st, base, attr, v, how, node)

    def s_If(self, s, st):
        self.ev(s.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(s.test, a, True)
        self.narrow(s.test, b, False)
        d = self.decide(s.test, st)
        if d is True:
            return self.block(s.body, a)
        if d is False:
            return self.block(s.orelse, b)
        for body, other in ((s.body, b), (s.orelse, a)):
            if copies(body) and not copies(s.orelse if body is s.body else s.body):
                self.guarded(st, other)
        return self.join(self.block(s.body, a), self.block(s.orelse, b))

    def guarded(self, st, other):
        """Note a copy under a condition that says nothing of the case without it."""
        if all(st.env.get(k) == v for k, v in other.env.items()) and all(
                st.heap.get(k) == v for k, v in other.heap.items()):
            self.sum.unclear = True

    def decide(self, test, st):
        """True/False when the test is settled by None-ness; None otherwise."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r = self.decide(test.operand, st)
            return None if r is None else not r
        if isinstance(test, ast.Name):
            return self.flags.get(test.id)
        if isinstance(test, ast.Call) and ast.unparse(test.func).split(".")[-1] in (
                "any", "all") and len(test.args) == 1 and isinstance(
                test.args[0], (ast.Tuple, ast.List)) and test.args[0].elts:
            rs = [self.decide(v, st) for v in test.args[0].elts]
            if ast.unparse(test.func).split(".")[-1] == "any":
                return True if True in rs else (None if None in rs else False)
            return False if False in rs else (None if None in rs else True)
        if isinstance(test, ast.BoolOp):
            rs = [self.decide(v, st) for v in test.values]
            if isinstance(test.op, ast.And):
                return False if False in rs else (True if all(rs) else None)
            return True if True in rs else (None if None in rs else False)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(
                test.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and isinstance(test.left, ast.Name):
            v = st.env.get(test.left.id)
            if v is None or v.typ is BOT:
                return None
            pos = isinstance(test.ops[0], ast.Is)
            if v.typ == NONE:
                return pos
            if test.left.id in self.notnone and v is self.notnone[test.left.id]:
                return not pos
        return None

    def rebind(self, node, v, st):
        if isinstance(node, ast.Name):
            st.env[node.id] = v
        elif isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Constant) and isinstance(node.slice.value, int):
            base = self.ev(node.value, st)
            if len(base.refs) == 1:
                for l in base.refs:
                    st.heap[(l, node.slice.value)] = v

    def narrow(self, test, st, truth):
        """Narrow types on isinstance / is None tests of a plain name."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    self.narrow(v, st, truth)
            else:
                # all operands but one are decided: the last one carries the verdict
                rest = [v for v in test.values if self.decide(v, st) is not (not truth)]
                if len(rest) == 1:
                    self.narrow(rest[0], st, truth)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(
                test.ops[0], (ast.Is, ast.IsNot)) and not isinstance(
                test.comparators[0], ast.Constant):
            same = isinstance(test.ops[0], ast.Is) == truth
            if not same:
                # distinct objects: the left value is none of the right's locations
                a, b = self.ev(test.left, st), self.ev(test.comparators[0], st)
                if b.refs:
                    self.rebind(test.left, Value(a.refs - b.refs, a.typ, a.calls), st)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(
                test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and isinstance(test.left, ast.Name):
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
            v = st.env.get(test.left.id)
            if v is not None:
                if isnone:
                    st.env[test.left.id] = fresh(NONE)
                elif "none" in v.typ.kinds and v.typ.kinds != {"none"} or v.typ.classes:
                    st.env[test.left.id] = v.typed(
                        T(v.typ.kinds - {"none"}, v.typ.classes, v.typ.elem))
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
                test.func.id == "isinstance" and len(test.args) == 2 and \
                isinstance(test.args[0], ast.Name):
            v = st.env.get(test.args[0].id)
            if v is None:
                return
            elts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) \
                else [test.args[1]]
            t = BOT
            for e in elts:
                t = t.join(from_annotation(self.prog, self.m, e))
            if t.unknown:
                return
            if truth:
                if t.immutable:
                    st.env[test.args[0].id] = fresh(t)
                else:
                    st.env[test.args[0].id] = Value(v.refs, T(
                        t.kinds, t.classes, t.elem or v.typ.elem), v.calls)
            elif not v.typ.unknown:
                k = v.typ.kinds - t.kinds
                c = v.typ.classes - t.classes
                if k or c:
                    st.env[test.args[0].id] = v.typed(T(k, c, v.typ.elem))

    def loop(self, st, once):
        """Iterate a loop body to a (bounded) fixpoint."""
        cur = st
        for _ in range(3):
            self.loopstack.append([])
            self.contstack.append([])
            s2 = once(cur.copy())
            brk = self.loopstack.pop()
            cont = self.contstack.pop()
            for c in cont:
                s2 = self.join(s2, c)
            new = self.join(cur, s2)
            for b in brk:
                new = self.join(new, b)
            if new is not None and cur.env == new.env and cur.heap == new.heap:
                return new
            cur = new
        return cur

    @property
    def contstack(self):
        if not hasattr(self, "_cont"):
            self._cont = []
        return self._cont

    def s_For(self, s, st):
        it = self.ev(s.iter, st)

        def once(x):
            self.assign(s.target, self.iterate(it, s.iter, x), x)
            return self.block(s.body, x)

        out = self.loop(st, once)
        if s.orelse:
            out = self.block(s.orelse, out)
        return out

    def iterate(self, it, node, st):
        return self.item(it, st)

    def s_While(self, s, st):
        def once(x):
            self.ev(s.test, x)
            return self.block(s.body, x)

        out = self.loop(st, once)
        if s.orelse:
            out = self.block(s.orelse, out)
        return out

    def s_Break(self, s, st):
        if self.loopstack:
            self.loopstack[-1].append(st)
        return None

    def s_Continue(self, s, st):
        if self.contstack:
            self.contstack[-1].append(st)
        return None

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        body = self.block(s.body, st)
        mid = self.join(pre, body)
        outs = self.block(s.orelse, body) if body is not None and s.orelse else body
        for h in s.handlers:
            hs = mid.copy()
            if h.name:
                hs.env[h.name] = fresh()
            outs = self.join(outs, self.block(h.body, hs))
        if s.finalbody:
            if outs is None:
                self.block(s.finalbody, mid.copy())
                return None
            outs = self.block(s.finalbody, outs)
        return outs

    s_TryStar = s_Try

    # -- expressions -----------------------------------------------------
    def ev(self, e, st):
        if e is None:
            return fresh(NONE)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return fresh()
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return fresh(NONE)
        if isinstance(v, bool):
            return fresh(BOOL)
        if isinstance(v, str):
            return fresh(STR)
        return fresh(NUM)

    def e_Name(self, e, st):
        return self.name(e, st)

    def name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        if e.id in self.locals and self.depth == 0 and False:
            return fresh()
        t = self.prog.resolve_name(self.m, e.id)
        return self.wrap(t, e.id)

    def wrap(self, t, name=None):
        if isinstance(t, model.Func):
            return Value(EMPTY, CALL, {("func", t)})
        if isinstance(t, model.Class):
            return Value(EMPTY, T({"cls"}), {("class", t)})
        if isinstance(t, model.Module):
            return Value(EMPTY, MOD, {("mod", t)})
        if isinstance(t, str):
            return Value(EMPTY, ANY, {("ext", t)})
        if isinstance(t, tuple):
            node = t[1].globals[t[2]]
            typ = ANY
            if isinstance(node, ast.Dict):
                typ = tdict()
            elif isinstance(node, (ast.List, ast.ListComp)):
                typ = tlist()
            elif isinstance(node, ast.Constant):
                typ = self.e_Constant(node, None).typ
            elif isinstance(node, ast.Tuple):
                typ = ttuple()
            return Value({Loc(("g", t[1].name, t[2]), ())}, typ)
        if name is not None:
            return Value(EMPTY, ANY, {("ext", name)})
        return fresh()

    def e_Attribute(self, e, st):
        return self.attr(self.ev(e.value, st), e.attr, e, st)

    def attr(self, base, attr, e, st):
        out = None
        # modules and classes
        for c in base.calls:
            if c[0] == "mod":
                v = self.wrap(self.prog.lookup_in_module(c[1], attr))
                out = v if out is None else out.join(v)
            elif c[0] == "ext":
                v = Value(EMPTY, ANY, {("ext", c[1] + "." + attr)})
                if c[1] + "." + attr in ("numpy.nan", "numpy.pi", "numpy.inf"):
                    v = fresh(NUM)
                out = v if out is None else out.join(v)
            elif c[0] == "class":
                f = c[1].find(attr)
                if f is not None:
                    v = Value(EMPTY, CALL, {
                        ("bound", f, base) if f.kind == "class" else ("func", f)})
                elif attr == "__name__":
                    v = fresh(STR)
                else:
                    v = fresh()
                out = v if out is None else out.join(v)
        if out is not None:
            return out
        # super()
        for c in base.calls:
            if c[0] == "super":
                f = None
                for b in c[1].mro()[1:]:
                    if attr in b.methods:
                        f = b.methods[attr]
                        break
                if f is not None:
                    if f.is_property:
                        return self.apply(f, [c[2]], {}, e, st, bound=True)
                    return Value(EMPTY, CALL, {("bound", f, c[2])})
                return fresh()
        if attr == "__class__" and base.typ.classes:
            return Value(EMPTY, T({"cls"}), {
                ("class", c) for cn in base.typ.classes
                for c in self.prog.class_by_name.get(cn, [])})
        fs = self.methods(base, attr)
        if fs:
            out = None
            for f in fs:
                if f.is_property:
                    v = self.apply(f, [base], {}, e, st, bound=True)
                else:
                    v = Value(EMPTY, CALL, {("bound", f, base)})
                out = v if out is None else out.join(v)
            return out
        if not base.typ.classes:
            if attr in ND_VIEW_ATTRS and base.typ.may("ndarray"):
                return base
            if attr in ND_SCALAR_ATTRS and base.typ.only("ndarray", "list", "tuple",
                                                         "num"):
                return fresh(NUM if attr != "shape" else ttuple(NUM))
        r = self.read(st, base, attr)
        return Value(r.refs, r.typ, r.calls | {("extm", attr, base)})

    def methods(self, base, attr):
        out = set()
        for cn in base.typ.classes:
            for c in self.prog.class_by_name.get(cn, []):
                f = c.find(attr)
                if f is not None:
                    out.add(f)
                for s in self.eng.subclasses.get(cn, ()):
                    if attr in s.methods:
                        out.add(s.methods[attr])
        if not out and base.typ.unknown and not base.typ.classes:
            if attr in AMBIGUOUS:
                return out
            for c in self.prog.methods_by_name.get(attr, ()):
                f = c.find(attr)
                if f is not None and not f.is_property:
                    out.add(f)
        return out

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        kind = self.index_kind(e.slice, st)
        self.ev(e.slice, st)
        for f in self.methods_exact(base, "__getitem__"):
            return self.apply(f, [base, fresh()], {}, e, st, bound=True)
        if base.typ.only("ndarray"):
            if kind == "fancy":
                return fresh(NDA)
            if kind == "scalar2":
                return fresh(NUM)
            if base.typ.elem is not None and base.typ.elem.immutable and \
                    self.is_int(e.slice):
                return fresh(base.typ.elem)
            return base.typed(NDA)
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, (int, str)) \
                and not base.typ.may("ndarray"):
            return self.item(base, st, e.slice.value)
        if isinstance(e.slice, ast.Slice) or base.typ.only("list", "tuple") and \
                not base.typ.classes and self.ev(e.slice, st).typ.only("slice"):
            if base.typ.only("str", "bytes"):
                return fresh(STR)
            if base.typ.only("list", "tuple"):
                out = self.alloc(e, "slice", base.typ)
                el = self.read(st, base, "[]")
                for l in out.refs:
                    st.heap[(l, "[]")] = el
                return out
            return base
        if kind == "fancy" and not base.typ.may("dict"):
            return fresh(NDA)
        if base.typ.unknown or base.typ.may("ndarray") and not base.typ.only(
                "list", "tuple"):
            el = self.read(st, base, "[]")
            if kind == "fancy":
                return Value(el.refs, el.typ, el.calls)
            return Value(el.refs | base.refs if isinstance(e.slice, ast.Tuple)
                         else el.refs, el.typ, el.calls)
        return self.item(base, st)

    @staticmethod
    def is_int(n):
        if isinstance(n, ast.UnaryOp):
            n = n.operand
        return isinstance(n, ast.Constant) and isinstance(n.value, int)

    def methods_exact(self, base, attr):
        out = []
        for cn in base.typ.classes:
            for c in self.prog.class_by_name.get(cn, []):
                f = c.find(attr)
                if f is not None:
                    out.append(f)
        return out

    def index_kind(self, sl, st):
        """basic | fancy (copying) | scalar2 (all integer constants, >=2)."""
        items = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        ints = 0
        for it in items:
            if isinstance(it, ast.Slice):
                continue
            if isinstance(it, ast.Constant):
                if isinstance(it.value, int):
                    ints += 1
                continue
            if isinstance(it, (ast.Compare, ast.List, ast.ListComp)):
                return "fancy"
            if isinstance(it, ast.UnaryOp) and isinstance(it.op, ast.Invert):
                return "fancy"
            if isinstance(it, ast.UnaryOp) and isinstance(it.operand, ast.Constant):
                ints += 1
                continue
            if isinstance(it, ast.BinOp) and isinstance(it.op, (ast.BitAnd, ast.BitOr)):
                return "fancy"
            v = self.ev(it, st)
            if v.typ.only("ndarray", "list"):
                return "fancy"
        if len(items) > 1 and ints == len(items):
            return "scalar2"
        return "basic"

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        if isinstance(e.op, ast.Add) and (
                a.typ.only("list", "tuple") or b.typ.only("list", "tuple")):
            typ = a.typ if not a.typ.unknown else b.typ
            if typ.only("list", "tuple") and not (
                    a.typ.only("ndarray") or b.typ.only("ndarray")):
                out = self.alloc(e, "concat", typ)
                el = self.read(st, a, "[]").join(self.read(st, b, "[]"))
                for l in out.refs:
                    st.heap[(l, "[]")] = el
                return out
        if isinstance(e.op, ast.Mod) and a.typ.only("str"):
            return fresh(STR)
        if a.typ.only("ndarray") or b.typ.only("ndarray"):
            return self.alloc(e, "op", NDA)
        if a.typ.only("num", "bool") and b.typ.only("num", "bool"):
            return fresh(NUM)
        if a.typ.only("date") or b.typ.only("date"):
            return fresh(T({"date", "num"}))
        if a.typ.immutable and b.typ.immutable:
            return fresh(a.typ.join(b.typ))
        t = ANY
        if not a.typ.unknown and not b.typ.unknown and not a.typ.classes \
                and not b.typ.classes:
            t = T({"num", "ndarray"})
        return self.alloc(e, "op", t)

    def e_BoolOp(self, e, st):
        out = None
        for v in e.values:
            x = self.ev(v, st)
            out = x if out is None else out.join(x)
        return out

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return fresh(BOOL)
        return self.alloc(e, "op", v.typ) if not v.typ.immutable else fresh(v.typ)

    def e_Compare(self, e, st):
        arr = False
        for c in [e.left] + e.comparators:
            v = self.ev(c, st)
            if v.typ.only("ndarray"):
                arr = True
        if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
            return fresh(BOOL)
        return fresh(NDA if arr else T({"bool", "ndarray"}))

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(e.test, a, True)
        self.narrow(e.test, b, False)
        va = self.ev(e.body, a)
        vb = self.ev(e.orelse, b)
        ca, cb = is_copy(e.body), is_copy(e.orelse)
        if ca != cb:
            self.guarded(st, b if ca else a)
        j = self.join(a, b)
        st.heap.clear()
        st.heap.update(j.heap)
        return va.join(vb)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return fresh(STR)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value else fresh(NONE)
        out = self.alloc(e, "gen", T({"list"}))
        for l in out.refs:
            st.heap[(l, "[]")] = v
        self.returns.append((out, st.copy()))
        return fresh()

    def container(self, e, st, elts, typ):
        out = self.alloc(e, "lit", typ)
        el = None
        elem_t = None
        positional = not any(isinstance(x, ast.Starred) for x in elts)
        vals = []
        for x in elts:
            v = self.ev(x, st)
            if isinstance(x, ast.Starred):
                v = self.item(v, st)
            vals.append(v)
            el = v if el is None else el.join(v)
            elem_t = v.typ if elem_t is None else elem_t.join(v.typ)
        out = Value(out.refs, T(typ.kinds, (), elem_t))
        for l in out.refs:
            if el is not None:
                st.heap[(l, "[]")] = el
            if positional and "tuple" in typ.kinds and len(vals) <= 6:
                for i, v in enumerate(vals):
                    st.heap[(l, i)] = v
        return out

    def e_List(self, e, st):
        return self.container(e, st, e.elts, tlist())

    def e_Tuple(self, e, st):
        return self.container(e, st, e.elts, ttuple())

    def e_Set(self, e, st):
        return self.container(e, st, e.elts, T({"set"}))

    def e_Dict(self, e, st):
        out = self.alloc(e, "dict", tdict())
        el = None
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, st)
            if k is None:
                x = self.read(st, x, "[]")
            else:
                self.ev(k, st)
            el = x if el is None else el.join(x)
        for l in out.refs:
            if el is not None:
                st.heap[(l, "[]")] = el
        return Value(out.refs, tdict(el.typ if el is not None else None))

    def comp(self, e, st, kind, elt, key=None):
        saved = dict(st.env)
        for g in e.generators:
            it = self.ev(g.iter, st)
            self.assign(g.target, self.iterate(it, g.iter, st), st)
            for c in g.ifs:
                self.ev(c, st)
        if key is not None:
            self.ev(key, st)
        v = self.ev(elt, st)
        st.env.clear()
        st.env.update(saved)
        out = self.alloc(e, "comp", T({kind}, (), v.typ))
        for l in out.refs:
            st.heap[(l, "[]")] = v
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", e.elt)

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", e.elt)

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list", e.elt)

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict", e.value, e.key)

    def e_Lambda(self, e, st):
        return Value(EMPTY, CALL, {("closure", e)})

    # -- calls -----------------------------------------------------------
    def e_Call(self, e, st):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and self.f.cls is not None \
                and fn.id not in st.env:
            sn = self.f.self_name()
            return Value(EMPTY, ANY, {("super", self.f.cls, st.env.get(sn, fresh()))})
        fv = self.ev(fn, st)
        args, kwargs, star, dstar = [], {}, None, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(a.value, (ast.Tuple, ast.List)):
                    args.extend(self.ev(x, st) for x in a.value.elts)
                else:
                    el = self.item(v, st)
                    star = el if star is None else star.join(el)
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                el = self.read(st, v, "[]")
                dstar = el if dstar is None else dstar.join(el)
            else:
                kwargs[k.arg] = v
        out = None
        handled = False
        for c in fv.calls:
            r = None
            if c[0] == "func":
                r = self.apply(c[1], args, kwargs, e, st, star=star, dstar=dstar)
            elif c[0] == "bound":
                r = self.apply(c[1], [c[2]] + args, kwargs, e, st, star=star,
                               dstar=dstar, bound=True)
            elif c[0] == "class":
                r = self.construct(c[1], args, kwargs, e, st, star, dstar)
            elif c[0] == "closure":
                r = self.call_closure(c[1], args, kwargs, e, st, star)
            elif c[0] == "ext":
                r = self.external(c[1], args, kwargs, e, st, star)
            elif c[0] == "extm":
                r = self.ext_method(c[1], c[2], args, kwargs, e, st, star)
            if r is not None:
                handled = True
                out = r if out is None else out.join(r)
        if not handled:
            out = self.unknown_call(args, kwargs, e, st, star)
        return out

    def run_callbacks(self, args, kwargs, e, st, star=None):
        """Closures handed to code we do not see are run on elements of the others."""
        vals = list(args) + list(kwargs.values())
        el = None
        for v in vals:
            if not any(c[0] in ("closure", "func", "bound") for c in v.calls):
                x = self.item(v, st)
                el = x if el is None else el.join(x)
        if el is None:
            el = fresh()
        out = None
        for v in vals:
            for c in v.calls:
                r = None
                if c[0] == "closure":
                    n = len(c[1].args.args)
                    r = self.call_closure(c[1], [el] * n, {}, e, st, None)
                elif c[0] == "func":
                    n = len(c[1].params())
                    r = self.apply(c[1], [el] * min(n, 1), {}, e, st)
                elif c[0] == "bound":
                    r = self.apply(c[1], [c[2], el], {}, e, st, bound=True)
                if r is not None:
                    out = r if out is None else out.join(r)
        return out

    def unknown_call(self, args, kwargs, e, st, star):
        self.eng.stats["calls_external"] += 1
        r = self.run_callbacks(args, kwargs, e, st, star)
        out = self.alloc(e, "call", ANY)
        if r is not None:
            for l in out.refs:
                st.heap[(l, "[]")] = r
        return out

    def construct(self, c, args, kwargs, e, st, star, dstar):
        site = self.alloc(e, "new:" + c.name, obj(c.name))
        init = c.find("__init__")
        if init is not None:
            self.apply(init, [site] + args, kwargs, e, st, star=star, dstar=dstar,
                       bound=True)
        return site

    def call_closure(self, node, args, kwargs, e, st, star):
        if self.depth > 4:
            return fresh()
        self.depth += 1
        saved_env = dict(st.env)
        saved_ret = self.returns
        self.returns = []
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if isinstance(node, ast.FunctionDef):
            for n in model.local_names(node):
                st.env.pop(n, None)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        anns = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        for i, n in enumerate(names):
            if i < len(args):
                v = args[i]
            elif n in kwargs:
                v = kwargs[n]
            elif star is not None:
                v = star
            elif n in defaults:
                v = self.ev(defaults[n], State(saved_env, st.heap))
            else:
                v = fresh()
            if v.typ.unknown and anns.get(n) is not None:
                v = v.typed(from_annotation(self.prog, self.m, anns[n]))
            st.env[n] = v
        if isinstance(node, ast.Lambda):
            ret = self.ev(node.body, st)
        else:
            loops, conts = self.loopstack, self._cont if hasattr(self, "_cont") else []
            self.loopstack, self._cont = [], []
            out = self.block(node.body, State(st.env, st.heap))
            self.loopstack, self._cont = loops, conts
            ret = BOTV
            heap = out.heap if out is not None else None
            if out is not None:
                ret = fresh(NONE)
            for v, s in self.returns:
                ret = ret.join(v)
                heap = dict(s.heap) if heap is None else self.join_heap(heap, s.heap)
            if heap is not None:
                heap = dict(heap)
                st.heap.clear()
                st.heap.update(heap)
        self.returns = saved_ret
        st.env.clear()
        st.env.update(saved_env)
        self.depth -= 1
        return ret

    def apply(self, f, args, kwargs, e, st, star=None, dstar=None, bound=False):
        """Apply a repository function's summary at a call site."""
        self.eng.stats["calls_resolved"] += 1
        self.sum.calls.add(f)
        s = self.eng.sums[f]
        params = f.params()
        amap = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(params):
                amap[params[i]] = v
            else:
                rest.append(v)
        kw_rest = []
        for k, v in kwargs.items():
            if k in params or k in f.kwonly():
                amap[k] = v
            else:
                kw_rest.append(v)
        for p in params + f.kwonly():
            if p not in amap:
                v = None
                if star is not None and p in params:
                    v = star
                if dstar is not None:
                    v = dstar if v is None else v.join(dstar)
                amap[p] = v if v is not None else fresh()
        if f.vararg():
            v = BOTV
            for r in rest:
                v = v.join(r)
            if star is not None:
                v = v.join(star)
            amap[f.vararg()] = ("elems", v)
        if f.kwarg():
            v = BOTV
            for r in kw_rest:
                v = v.join(r)
            if dstar is not None:
                v = v.join(dstar)
            amap[f.kwarg()] = ("elems", v)
        cs = (self.f.qualname, getattr(e, "lineno", 0), getattr(e, "col_offset", 0))
        pre = st.copy()
        cache = {}

        def tloc(loc):
            if loc in cache:
                return cache[loc]
            root = loc.root
            if root[0] == "p":
                v = amap.get(root[1])
                path = loc.path
                if v is None:
                    v = fresh()
                if isinstance(v, tuple):
                    v = v[1]
                    path = path[1:] if path and path[0] == "[]" else path
                for step in path:
                    v = self.read(pre, v, step)
            elif root[0] == "f":
                depth = 0
                x = root[1]
                while isinstance(x, tuple) and len(x) == 3 and x[0] == "@":
                    depth += 1
                    x = x[2]
                site = ("@", cs, root[1]) if depth < 3 else ("@", cs, ("deep",) + x[:1])
                v = Value({Loc(("f", site), loc.path)}, ANY)
            else:
                v = Value({loc}, ANY)
            cache[loc] = v
            return v

        def tval(v):
            refs = set()
            calls = set(c for c in v.calls if c[0] not in ("closure",))
            for l in v.refs:
                x = tloc(l)
                refs |= x.refs
                calls |= {c for c in x.calls}
            calls2 = set()
            for c in calls:
                if c[0] in ("bound", "extm") and isinstance(c[2], Value) and c[2] is not v:
                    if any(l.root[0] == "p" for l in c[2].refs) and c in v.calls:
                        continue
                calls2.add(c)
            typ = v.typ
            if typ.unknown:
                ts = [tloc(l).typ for l in v.refs]
                if len(ts) == 1 and not ts[0].unknown:
                    typ = ts[0]
            return Value(refs, typ, calls2)

        for mu in s.muts.values():
            for l in tloc(mu.loc).refs:
                via = ((f.short, cs[1]),) + mu.via
                self.mutate_loc(l, mu.step, mu.how, e, via=via[:12], line=mu.line,
                                func=mu.func, lazy=mu.lazy)
        for (loc, step), v in s.heap.items():
            tgt = tloc(loc)
            nv = tval(v)
            if step != "[]":
                self.eng.note_attr(tgt.typ.classes, step, nv.typ)
            strong = len(tgt.refs) == 1 and step != "[]"
            for l in tgt.refs:
                if strong:
                    st.heap[(l, step)] = nv
                else:
                    old = st.heap.get((l, step))
                    if old is None:
                        old = self.default_read(l, step)
                    st.heap[(l, step)] = old.join(nv)
        ret = tval(s.ret)
        if f.short in ANNOTATION_FIXES:
            ret = ret.typed(ANNOTATION_FIXES[f.short])
        elif f.node.returns is not None:
            ann = from_annotation(self.prog, f.module, f.node.returns)
            if ret.typ.unknown or ret.typ is BOT:
                if not ann.unknown:
                    ret = Value(ret.refs, ann, ret.calls)
            elif ret.typ.only("ndarray", "num") is False and ann.immutable:
                ret = fresh(ann)
        # callbacks: closures passed into repository functions run here as well
        for v in list(args) + list(kwargs.values()):
            for c in v.calls:
                if c[0] == "closure":
                    self.call_closure(c[1], [fresh()] * len(c[1].args.args), {}, e, st,
                                      None)
        return ret

    def elems_value(self, e, st, vals, typ):
        out = self.alloc(e, "cont", typ)
        el = None
        for v in vals:
            x = self.item(v, st)
            el = x if el is None else el.join(x)
        if el is not None:
            for l in out.refs:
                st.heap[(l, "[]")] = el
            out = Value(out.refs, T(typ.kinds, (), el.typ))
        return out

    def external(self, dotted, args, kwargs, e, st, star):
        self.eng.stats["calls_external"] += 1
        last = dotted.split(".")[-1]
        vals = list(args) + list(kwargs.values()) + ([star] if star is not None else [])
        if "out" in kwargs and dotted.startswith(("numpy", "scipy")):
            self.mutate(st, kwargs["out"], "out= argument", e)
            return kwargs["out"]
        if dotted.startswith("numpy"):
            if last in MUT_FUNCS and args:
                self.mutate(st, args[MUT_FUNCS[last]], f"{dotted}()", e)
                return fresh(NONE)
            if last in VIEW_FUNCS and args:
                a = args[0]
                if a.typ.only("list", "tuple", "num") and last != "broadcast_arrays":
                    return self.alloc(e, "np", NDA)
                if last in ("broadcast_arrays", "split", "array_split", "vsplit",
                            "hsplit"):
                    out = self.alloc(e, "np", tlist(NDA))
                    j = args[0]
                    for x in args[1:]:
                        j = j.join(x)
                    for l in out.refs:
                        st.heap[(l, "[]")] = Value(j.refs, NDA)
                    return out
                return Value(a.refs, T({"ndarray"}, (), a.typ.elem if a.typ.elem and
                                       a.typ.elem.only("date") else None))
            if last in ("array", "nan_to_num", "meshgrid", "matrix", "masked_array"):
                c = next((k.value for k in e.keywords if k.arg == "copy"), None)
                if isinstance(c, ast.Constant) and c.value is False and args:
                    return Value(args[0].refs, NDA)
                if last == "meshgrid":
                    return self.alloc(e, "np", tlist(NDA))
                return self.alloc(e, "np", NDA)
            if last in ("apply_along_axis", "vectorize", "frompyfunc"):
                self.run_callbacks(args, kwargs, e, st)
            if last in ("errstate",):
                return fresh()
            if last in ("any", "all", "shape", "size", "ndim", "isscalar", "sum", "min",
                        "max", "mean", "std", "prod", "median", "nanmin", "nanmax",
                        "nanmean", "dot"):
                return self.alloc(e, "np", T({"num", "ndarray"}))
            if last in ("unique", "nonzero", "where", "histogram", "gradient"):
                return self.alloc(e, "np", T({"ndarray", "tuple"}, (), NDA))
            return self.alloc(e, "np", NDA)
        if dotted.startswith("copy."):
            if last == "deepcopy":
                a = args[0] if args else fresh()
                return self.alloc(e, "deep", a.typ)
            if last == "copy":
                a = args[0] if args else fresh()
                out = self.alloc(e, "copy", a.typ)
                if a.typ.only("ndarray"):
                    return out
                self.shallow(st, a, out)
                return out
        if dotted.startswith("random") and last == "shuffle" and args:
            self.mutate(st, args[0], "random.shuffle", e)
            return fresh(NONE)
        if dotted.startswith(("scipy.ndimage",)) and "output" in kwargs:
            self.mutate(st, kwargs["output"], "output= argument", e)
        if last in ("heappush", "heappop", "heapify") and args:
            self.mutate(st, args[0], last, e)
        if dotted == "setattr" and args:
            name = e.args[1] if len(e.args) > 1 else None
            if isinstance(name, ast.Constant):
                self.setattr(args[0], name.value, args[2], e, st, how="setattr")
            else:
                inval = len(e.args) > 2 and isinstance(e.args[2], ast.Constant) \
                    and e.args[2].value is None
                for l in args[0].refs:
                    self.mutate_loc(l, "*", "setattr", e, lazy=inval)
            return fresh(NONE)
        if dotted == "delattr" and args:
            for l in args[0].refs:
                self.mutate_loc(l, "*", "delattr", e)
            return fresh(NONE)
        if dotted == "getattr" and args:
            name = e.args[1] if len(e.args) > 1 else None
            if isinstance(name, ast.Constant):
                return self.attr(args[0], name.value, e, st)
            return Value({extend(l, "*") for l in args[0].refs}, ANY)
        if dotted == "vars" and args:
            return Value(args[0].refs, tdict())
        if last in CONTAINERS and ("." not in dotted or dotted.startswith(
                ("itertools", "collections"))):
            fns = [v for v in vals if any(c[0] in ("closure", "func", "bound")
                                          for c in v.calls)]
            if last in ("map", "filter", "sorted") and fns:
                r = self.run_callbacks(args, kwargs, e, st)
                if last == "map":
                    out = self.alloc(e, "cont", tlist())
                    if r is not None:
                        for l in out.refs:
                            st.heap[(l, "[]")] = r
                    return out
            kind = {"tuple": "tuple", "set": "set", "dict": "dict",
                    "frozenset": "set"}.get(last, "list")
            if last in ("zip", "enumerate"):
                inner = self.alloc(e, "inner", ttuple())
                els = [self.item(v, st) for v in args]
                if last == "enumerate":
                    els = [fresh(NUM)] + els[:1]
                for l in inner.refs:
                    for i, v in enumerate(els):
                        st.heap[(l, i)] = v
                    el = BOTV
                    for v in els:
                        el = el.join(v)
                    st.heap[(l, "[]")] = el
                out = self.alloc(e, "cont", tlist(ttuple()))
                for l in out.refs:
                    st.heap[(l, "[]")] = inner
                return out
            return self.elems_value(e, st, vals, T({kind}))
        if last in ("min", "max", "next", "sum", "reduce") and "." not in dotted:
            if len(args) == 1:
                return self.item(args[0], st)
            out = BOTV
            for v in args:
                out = out.join(v)
            return out
        if "." not in dotted and last in SCALAR_BUILTINS:
            if last in ("open",):
                return self.alloc(e, "file", T({"file"}))
            if last in ("abs", "round"):
                return self.alloc(e, "call", args[0].typ if args else ANY)
            if last == "type":
                cl = set()
                for a in args:
                    for cn in a.typ.classes:
                        for c in self.prog.class_by_name.get(cn, []):
                            cl.add(("class", c))
                return Value(EMPTY, T({"cls"}), cl)
            return fresh(BOOL if last in ("isinstance", "hasattr", "any", "all", "bool")
                         else STR if last in ("str", "repr") else
                         T({"slice"}) if last == "slice" else
                         T({"range"}, (), NUM) if last == "range" else NUM
                         if last in ("len", "int", "float", "round", "hash", "id")
                         else ANY)
        if dotted.startswith("datetime."):
            return fresh(T({"date"}))
        if dotted.startswith("os.path") or dotted.startswith("re."):
            return fresh(STR) if dotted.startswith("os.path") else fresh()
        return self.unknown_call(args, kwargs, e, st, star)

    def shallow(self, st, src, dst):
        """Copy src's known fields (and default field locations) one level."""
        fields = {"[]"}
        for (l, step) in list(st.heap):
            if l in src.refs:
                fields.add(step)
        for cn in src.typ.classes:
            for c in self.prog.class_by_name.get(cn, []):
                for b in c.mro():
                    for (k, attr) in self.eng.attr_types:
                        if k == b.name:
                            fields.add(attr)
        for fld in fields:
            v = self.read(st, src, fld)
            for l in dst.refs:
                st.heap[(l, fld)] = v

    def ext_method(self, name, base, args, kwargs, e, st, star):
        """Method of a builtin / numpy / external object."""
        self.eng.stats["calls_external"] += 1
        t = base.typ
        if base.refs and any(c[0] == "ext" for c in base.calls):
            pass
        if name in ND_MUT_METHODS and t.may("ndarray") or \
                name in C_MUT_METHODS and not t.only("ndarray", "str", "num"):
            if not t.immutable and not t.classes:
                self.mutate(st, base, f".{name}()", e)
        if name in C_MUT_METHODS and not t.only("ndarray"):
            el = None
            for v in list(args) + list(kwargs.values()):
                if name in ("extend", "update"):
                    v = self.item(v, st)
                el = v if el is None else el.join(v)
            if el is not None:
                for l in base.refs:
                    old = st.heap.get((l, "[]")) or self.default_read(l, "[]")
                    st.heap[(l, "[]")] = old.join(el)
            return fresh(NONE)
        if name in C_MUT_RET and not t.only("ndarray", "str", "num") and not t.classes:
            self.mutate(st, base, f".{name}()", e)
            return self.read(st, base, "[]")
        if name in ND_VIEW_METHODS and t.may("ndarray"):
            return base.typed(NDA) if not t.unknown else base
        if name == "astype":
            c = next((k.value for k in e.keywords if k.arg == "copy"), None)
            if isinstance(c, ast.Constant) and c.value is False:
                return base.typed(NDA)
            return self.alloc(e, "np", NDA)
        if name == "copy":
            out = self.alloc(e, "copy", t)
            if not t.only("ndarray"):
                el = self.read(st, base, "[]")
                if t.may("ndarray") and t.unknown:
                    return out
                for l in out.refs:
                    st.heap[(l, "[]")] = el
            return out
        if name in ("flatten", "repeat", "cumsum", "dot", "clip", "round", "take",
                    "nonzero", "argsort", "conj", "compress"):
            return self.alloc(e, "np", NDA)
        if name in ("min", "max", "mean", "sum", "std", "any", "all", "ptp", "prod",
                    "var", "argmin", "argmax", "cumprod"):
            return self.alloc(e, "np", T({"num", "ndarray"}))
        if name in ("tolist",):
            return self.alloc(e, "np", tlist())
        if name in ("items",):
            inner = self.alloc(e, "inner", ttuple())
            el = self.read(st, base, "[]")
            for l in inner.refs:
                st.heap[(l, 0)] = fresh(STR)
                st.heap[(l, 1)] = el
                st.heap[(l, "[]")] = el
            out = self.alloc(e, "cont", tlist(ttuple()))
            for l in out.refs:
                st.heap[(l, "[]")] = inner
            return out
        if name in ("values", "get"):
            el = self.read(st, base, "[]")
            if name == "get":
                for v in args[1:]:
                    el = el.join(v)
                return el
            out = self.alloc(e, "cont", tlist(el.typ))
            for l in out.refs:
                st.heap[(l, "[]")] = el
            return out
        if name == "keys":
            return fresh(tlist(STR))
        if name in ("total_seconds", "timestamp", "index", "count", "find"):
            return fresh(NUM)
        if name in ("format", "join", "lower", "upper", "strip", "replace", "split",
                    "rstrip", "lstrip", "strftime", "title"):
            return fresh(STR if name != "split" else tlist(STR))
        return self.unknown_call(args, kwargs, e, st, star)


# Return annotations in the repository that are wrong as types (docs say otherwise).
ANNOTATION_FIXES = {"raster.Raster.read": NDA}

AMBIGUOUS = {
    "copy", "resize", "reshape", "plot", "read", "write", "index", "open", "set",
    "filter", "reset", "update", "get", "pop", "append", "insert", "close", "size",
    "shape", "n", "d", "min", "max", "T", "x", "y", "fit", "report", "predicted",
    "observed", "parse", "dump", "track", "project", "transform", "shift", "values",
    "array", "path", "width", "height", "set_xlim", "sample", "__init__", "save",
    "load", "flush", "to_json", "date", "datetime", "xlim", "ylim", "rotate",
}
