"""Lifting of functions into the gated value graph.

Functions are if-converted: both branches of a conditional are lifted once and their
results joined by gates; writes into arrays and attributes are predicated by the branch
condition.  Calls to repository functions are inlined.  Loops are unrolled only over
sequences of known length.  Whatever is outside the domain becomes an opaque value or
taints the run, which leaves the obligations that depend on it undecided.
"""
import ast
import collections
import re
import time

import numpy as np

from .. import model
from . import decide
from . import term as T
from .value import (Arr, Bound, ClassRef, Closure, DefaultV, Ext, ExtM, FuncRef, Gate,
                    ModRef, Native, Obj, Opq, Sel, SetV, ShapeError, Super, Unsupported,
                    elementwise, full, is_scalar, kind_of, merge, merge_dim, simplify0,
                    to_arr)

MAXDEPTH = 24
MAXUNROLL = 128


def fit_values(v, shape, a):
    """Values assigned to cells of an array, repeated to their number."""
    try:
        return np.broadcast_to(v.data, shape)
    except ValueError:
        if all(isinstance(d, int) for d in (*v.dims, *a.dims)):
            raise PyError("ValueError: could not broadcast input array")
        raise


class Budget(Exception):
    """The lifting of one function takes too long: undecided."""


class Diverges(Exception):
    """The lifted call certainly never ends."""


class PyError(Exception):
    """A Python error that certainly occurs on the path being lifted."""


class Exit:
    def __init__(self):
        self.ret = False        # condition that control has left by return/raise
        self.brk = False
        self.cont = False

    def any(self):
        return T.lor(self.ret, self.brk, self.cont)


class Frame:
    def __init__(self, func, env, module, base):
        self.func, self.env, self.module = func, env, module
        self.returns = []
        self.yields = []        # of a generator, which is run to its end
        self.base = base        # length of the path condition at entry
        self.cls = func.cls if func is not None else None


_GENERATORS = {}


def generator(node):
    """Whether a function definition is a generator."""
    if node not in _GENERATORS:
        todo, out = list(node.body), False
        while todo and not out:
            n = todo.pop()
            out = isinstance(n, (ast.Yield, ast.YieldFrom))
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo += ast.iter_child_nodes(n)
        _GENERATORS[node] = out
    return _GENERATORS[node]


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div",
          ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow"}
CMPOPS = {ast.Lt: "lt", ast.LtE: "le", ast.Eq: "eq", ast.NotEq: "ne"}


CONSTANT = {}


def exception(name):
    """An exception caught by the lifted code."""
    o = Obj("exception", {})
    o.attrs["__class__"] = Native(lambda *a: exception(name))
    return o


class Lifter:
    def __init__(self, prog, assume=(), budget=20.0):
        self.deadline = time.monotonic() + budget
        self.prog = prog
        self.pc = []            # conjuncts of the current path condition
        self.frames = []
        self.raises = []        # (condition, exception name, location)
        self.taint = []         # statements that could not be lifted
        self.rand = 0
        self.draws = []         # random draws in order
        self.globals = {}       # overrides: (module, name) -> value
        self.native = {}        # overrides: qualified function -> python callable
        self.ext = {}           # overrides: dotted external -> python callable
        self.trace = set()      # inlined functions
        self.axioms = []        # facts about opaque results
        self.calls = []         # (dotted name, args, kwargs, pc) of recorded externals
        self.depth = 0
        for c in assume:
            self.pc += T.conjuncts(c)
        self.base_pc = len(self.pc)
        from . import npmod
        self.np = npmod

    # -- path condition ----------------------------------------------------
    def cond(self, since=0):
        return T.land(*self.pc[since:])

    def push(self, c):
        n = len(self.pc)
        for x in T.conjuncts(c):
            if not T.is_num(x):
                self.pc.append(x)
        return n

    def pop(self, n):
        del self.pc[n:]

    def known(self, c):
        """True/False when the path condition decides condition c."""
        if T.is_num(c):
            return bool(c)
        if c in self.pc:
            return True
        nc = T.lnot(c)
        if nc in self.pc:
            return False
        if c.op == "and":
            ks = [self.known(a) for a in c.args]
            if False in ks:
                return False
            if all(k is True for k in ks):
                return True
        if c.op == "or":
            ks = [self.known(a) for a in c.args]
            if True in ks:
                return True
            if all(k is False for k in ks):
                return False
        if c.op == "not":
            k = self.known(c.args[0])
            return None if k is None else not k
        return self.constant(c)

    def constant(self, c):
        """Truth value of a condition that has the same value number everywhere."""
        if c.dims or T.is_opaque(c):
            return None
        if c not in CONSTANT:
            try:
                v = decide.constant(c)
            except Exception:       # not interpretable: stays a gate
                v = None
            CONSTANT[c] = None if v is None else bool(v)
        return CONSTANT[c]

    def number(self, c):
        """The number that a term has everywhere, or the term."""
        if not isinstance(c, T.Node) or c.dims or T.is_opaque(c):
            return c
        key = (c, "number")
        if key not in CONSTANT:
            try:
                CONSTANT[key] = decide.constant(c)
            except Exception:       # not interpretable
                CONSTANT[key] = None
        return c if CONSTANT[key] is None else CONSTANT[key]

    def resolve(self, v):
        while isinstance(v, Gate):
            k = self.known(v.cond)
            if k is None:
                # a sub-gate may be decided
                a, b = v.a, v.b
                if isinstance(a, Gate) or isinstance(b, Gate):
                    a2, b2 = self.resolve(a), self.resolve(b)
                    if a2 is not a or b2 is not b:
                        v = merge(v.cond, a2, b2)
                        if isinstance(v, Gate):
                            return v
                        continue
                return v
            v = v.a if k else v.b
        if isinstance(v, T.Node) and v.op == "ite":
            k = self.known(v.args[0])
            if k is not None:
                return self.resolve(v.args[1] if k else v.args[2])
        return v

    def lift_gates(self, fn, *vals):
        """Apply fn with every Gate argument split on its condition."""
        vals = [self.resolve(v) for v in vals]
        for i, v in enumerate(vals):
            if isinstance(v, Gate):
                out = []
                for c, x in ((v.cond, v.a), (T.lnot(v.cond), v.b)):
                    n = self.push(c)
                    try:
                        w = list(vals)
                        w[i] = x
                        out.append((True, self.lift_gates(fn, *w)))
                    except PyError as e:
                        self.raises.append((self.cond(), str(e), self.where()))
                        out.append((False, e))
                    finally:
                        self.pop(n)
                (oka, a), (okb, b) = out
                if oka and okb:
                    return merge(v.cond, a, b)
                if oka:
                    return a
                if okb:
                    return b
                raise a
        return fn(*vals)

    def where(self):
        f = self.frames[-1] if self.frames else None
        if f is None or f.func is None:
            return ""
        return f"{f.func.short}:{getattr(self, 'line', 0)}"

    # -- functions -----------------------------------------------------------
    def call_func(self, f, args, kwargs, self_=None):
        if f.qualname in self.native:
            return self.native[f.qualname](self, args, kwargs, self_)
        if self.depth > MAXDEPTH:
            raise Unsupported("inlining depth")
        self.trace.add(f.short)
        env = self.bind(f.node.args, args, kwargs, f, self_)
        fr = Frame(f, env, f.module, len(self.pc))
        return self.run(fr, f.node)

    def run(self, fr, node):
        self.frames.append(fr)
        self.depth += 1
        line = getattr(self, "line", 0)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            ex = self.block(node.body, fr)
            done = ex.ret
            if generator(node):
                if done is True and fr.returns or done is False:
                    return list(fr.yields)
                raise Unsupported("generator of unknown length")
            if done is not True:
                fr.returns.append((T.lnot(done), None))
            if not fr.returns:
                raise PyError("function always raises")
            out = fr.returns[-1][1]
            for c, v in reversed(fr.returns[:-1]):
                out = merge(c, v, out)
            return out
        finally:
            self.line = line
            self.depth -= 1
            self.frames.pop()
            self.pop(fr.base)

    def bind(self, a, args, kwargs, f=None, self_=None, env0=None, defaults_env=None):
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        if self_ is not None:
            args = [self_] + args
        env = {}
        kwargs = dict(kwargs)
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif len(args) > len(pos):
            raise PyError("TypeError: too many arguments")
        for n in pos + [p.arg for p in a.kwonlyargs]:
            if n in kwargs:
                if n in env:
                    raise PyError(f"TypeError: multiple values for {n}")
                env[n] = kwargs.pop(n)
        fr = Frame(f, {}, f.module if f is not None else self.frames[-1].module,
                   len(self.pc))
        if defaults_env is not None:
            fr.env = defaults_env
        for p, d in list(zip(reversed(pos), reversed(a.defaults))):
            if p not in env:
                env[p] = self.ev(d, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.ev(d, fr)
        if a.kwarg:
            env[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyError(f"TypeError: unexpected argument {list(kwargs)[0]}")
        for n in pos:
            if n not in env:
                raise PyError(f"TypeError: missing argument {n}")
        return env

    def construct(self, cls, args, kwargs):
        o = Obj(cls)
        init = cls.find("__init__")
        if init is not None:
            self.call_func(init, args, kwargs, o)
        else:
            # dataclass-like
            names = [n.target.id for c in reversed(cls.mro()) for n in c.node.body
                     if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            if not names and (args or kwargs):
                raise Unsupported(f"constructor of {cls.name}")
            for n, v in zip(names, args):
                o.attrs[n] = v
            o.attrs.update(kwargs)
        return o

    # -- statements ----------------------------------------------------------
    def block(self, body, fr):
        total = Exit()
        for s in body:
            live = total.any()
            if live is True or (not T.is_num(live) and self.known(live) is True):
                break
            self.line = getattr(s, "lineno", 0)
            n = len(self.pc)
            del n
            try:
                ex = self.stmt(s, fr)
            except PyError as e:
                self.raises.append((self.cond(self.base_pc), str(e), self.where()))
                ex = Exit()
                ex.ret = True
            except ShapeError as e:
                self.raises.append((self.cond(self.base_pc), f"ValueError: shape: {e}",
                                    self.where()))
                ex = Exit()
                ex.ret = True
            except Unsupported as e:
                ex = self.havoc(s, fr, e)
            if ex is None:
                continue
            total.ret = T.lor(total.ret, ex.ret)
            total.brk = T.lor(total.brk, ex.brk)
            total.cont = T.lor(total.cont, ex.cont)
            e = ex.any()
            if e is True:
                break
            if e is not False:
                # the rest of the block runs only where control has not left
                self.push(T.lnot(e))
        return total

    def havoc(self, s, fr, why):
        self.taint.append((f"{fr.func.short if fr.func else '?'}:"
                           f"{getattr(s, 'lineno', 0)}", str(why)))
        if isinstance(s, ast.Return):
            fr.returns.append((self.cond(fr.base), Opq(T.havoc("ret"))))
            ex = Exit()
            ex.ret = True
            return ex
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                fr.env[n.id] = Opq(T.havoc(n.id))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    self.setattr(self.ev(n.value, fr), n.attr, Opq(T.havoc(n.attr)))
                except (Unsupported, PyError):
                    pass
            elif isinstance(n, (ast.Return,)):
                fr.returns.append((T.havoc("returned"), Opq(T.havoc("ret"))))

    def stmt(self, s, fr):
        if time.monotonic() > self.deadline:
            raise Budget("lifting budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def s_Pass(self, s, fr):
        return None

    s_Global = s_Nonlocal = s_Pass

    def s_Assert(self, s, fr):
        return None

    def s_Import(self, s, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            fr.env[nm] = self.wrap(self.prog.lookup_dotted(
                a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name] = Ext(f"{s.module}.{a.name}")

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_Return(self, s, fr):
        v = None if s.value is None else self.ev(s.value, fr)
        fr.returns.append((self.cond(fr.base), v))
        ex = Exit()
        ex.ret = True
        return ex

    def s_Raise(self, s, fr):
        name = "raise"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e)
            if name[:1].islower():
                # an exception made earlier
                try:
                    v = self.ev(e if e is s.exc else s.exc, fr)
                except (Unsupported, PyError):
                    v = None
                if isinstance(v, Obj) and isinstance(v.cls, str):
                    name = v.cls
        self.raises.append((self.cond(self.base_pc), name, self.where()))
        ex = Exit()
        ex.ret = True
        return ex

    def s_Break(self, s, fr):
        ex = Exit()
        ex.brk = True
        return ex

    def s_Continue(self, s, fr):
        ex = Exit()
        ex.cont = True
        return ex

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = Closure(s, fr.env, fr.func)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = BINOPS.get(type(s.op))
        t = s.target
        v = self.ev(s.value, fr)
        if isinstance(t, ast.Name):
            cur = self.name(t, fr)
            new = self.inplace(s.op, cur, v, fr)
            fr.env[t.id] = new
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            cur = self.getattr(base, t.attr)
            new = self.inplace(s.op, cur, v, fr)
            self.setattr(base, t.attr, new)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.index(t.slice, fr)

            def go(base, idx, v):
                masks = idx if isinstance(idx, tuple) else (idx,)
                if isinstance(base, Arr) and any(
                        isinstance(i, Arr) and i.kind == "b" for i in masks) and not any(
                        isinstance(d, T.Dim) and d.base is not None
                        for d in (v.dims if isinstance(v, Arr) else ())):
                    if len(masks) == 1 and not self.const_mask(masks[0]):
                        full_new = self.binop(s.op, base, v)
                        self.masked_write(base, masks[0], full_new, whole=True)
                        return None
                if isinstance(base, Arr) and len(masks) > 1:
                    bm = [k for k, i in enumerate(masks)
                          if isinstance(i, Arr) and i.kind == "b"]
                    if len(bm) == 1 and not self.const_mask(masks[bm[0]]) and all(
                            isinstance(i, (int, slice)) for k, i in enumerate(masks)
                            if k != bm[0]) and is_scalar(v):
                        # all elements of the masked axis, then predicated write
                        every = tuple(slice(None) if k == bm[0] else i
                                      for k, i in enumerate(masks))
                        new = self.binop(s.op, self.arr_get(base, every), v)
                        self.arr_set(base, idx, new, whole=True)
                        return None
                cur = self.getitem(base, idx)
                new = self.binop(s.op, cur, v)
                self.setitem(base, idx, new)
                return None
            self.lift_gates(go, base, idx, v)
        if op is None and not isinstance(s.op, (ast.BitAnd, ast.BitOr, ast.MatMult)):
            raise Unsupported("augmented operator")

    def inplace(self, op, cur, v, fr):
        """x op= v: numpy arrays are updated in place (predicated)."""
        cur = self.resolve(cur)
        if isinstance(cur, Arr):
            def go(v):
                r = to_arr(self.binop(op, cur, v))
                dims = cur.dims
                for x, y in zip(r.dims[::-1], dims[::-1]):
                    if not (x is y or x == y):
                        raise ShapeError("in-place operation changes shape")
                return r
            new = self.lift_gates(go, v)
            if isinstance(new, Gate):
                raise Unsupported("gated in-place update")
            self.write_all(cur, new)
            return cur
        if isinstance(cur, list) and isinstance(op, ast.Add):
            if self.cond() is not True and len(self.pc) > self.base_pc:
                return self.binop(op, cur, v)
            v = self.resolve(v)
            if not isinstance(v, (list, tuple)):
                v = self.iterate(v)
            cur.extend(v)
            return cur
        return self.binop(op, cur, v)

    def write_all(self, arr, new):
        c = self.cond()
        shape = arr.data.shape
        nd = np.broadcast_to(to_arr(new).data, shape)
        for i in np.ndindex(*shape):
            arr.data[i] = T.ite(c, self.cast(arr, nd[i]), arr.data[i])

    @staticmethod
    def cast(arr, x):
        if arr.kind == "i":
            return T.app("trunc", x) if not (isinstance(x, int)) else x
        if arr.kind == "b":
            return T.app("bool", x)
        return x

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        k = self.known(c)
        if k is True:
            return self.block(s.body, fr)
        if k is False:
            return self.block(s.orelse, fr)
        env0 = dict(fr.env)
        n = self.push(c)
        ea = self.block(s.body, fr)
        self.pop(n)
        env_a = dict(fr.env)
        fr.env.clear()
        fr.env.update(env0)
        n = self.push(T.lnot(c))
        eb = self.block(s.orelse, fr)
        self.pop(n)
        env_b = dict(fr.env)
        fr.env.clear()
        if ea.any() is True:
            fr.env.update(env_b)
        elif eb.any() is True:
            fr.env.update(env_a)
        else:
            for k2 in list(env_a) + [x for x in env_b if x not in env_a]:
                if k2 in env_a and k2 in env_b:
                    fr.env[k2] = merge(c, env_a[k2], env_b[k2])
                else:
                    fr.env[k2] = env_a.get(k2, env_b.get(k2))
        ex = Exit()
        for f in ("ret", "brk", "cont"):
            setattr(ex, f, T.lor(T.land(c, getattr(ea, f)),
                                 T.land(T.lnot(c), getattr(eb, f))))
        # complementary branches both leave
        if ea.any() is True and eb.any() is True:
            if ea.ret is True and eb.ret is True:
                ex.ret = True
        return ex

    def s_For(self, s, fr):
        it = self.resolve(self.ev(s.iter, fr))
        items = self.iterate(it)
        total = Exit()
        n0 = len(self.pc)
        if len(items) > MAXUNROLL:
            raise Unsupported("long loop")
        for x in items:
            self.assign(s.target, x, fr)
            n = len(self.pc)
            ex = self.block(s.body, fr)
            self.pop(n)
            total.ret = T.lor(total.ret, ex.ret)
            leave = T.lor(ex.ret, ex.brk)
            if leave is True:
                break
            if leave is not False:
                self.push(T.lnot(leave))
        else:
            if s.orelse:
                ex = self.block(s.orelse, fr)
                total.ret = T.lor(total.ret, ex.ret)
        self.pop(n0)
        return total

    def s_While(self, s, fr):
        for _ in range(MAXUNROLL):
            c = self.truth(self.ev(s.test, fr))
            k = self.known(c)
            if k is False:
                return None
            if k is None:
                raise Unsupported("while loop")
            ex = self.block(s.body, fr)
            if ex.brk is True:
                return None
            if ex.ret is True:
                return ex
            if ex.ret is not False or ex.brk is not False or ex.cont not in (
                    True, False):
                raise Unsupported("conditional exit from while loop")
        raise Unsupported("long while loop")

    def s_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        return self.block(s.body, fr)

    def s_Try(self, s, fr):
        n_r, n_t = len(self.raises), len(self.taint)
        env0 = dict(fr.env)
        ex = self.block(s.body, fr)
        del n_t
        if ex.ret is True and len(self.raises) > n_r and s.handlers:
            # the body certainly raises: the first handler of that kind runs
            name = self.raises[n_r][1]
            h = next((h for h in s.handlers if self.catches(h, name)), None)
            if h is not None:
                del self.raises[n_r:]
                fr.env.update({k: v for k, v in env0.items() if k not in fr.env})
                if h.name:
                    fr.env[h.name] = exception(name)
                ex = self.block(h.body, fr)
        elif s.orelse and ex.any() is False:
            ex = self.block(s.orelse, fr)
        if s.finalbody:
            e2 = self.block(s.finalbody, fr)
            ex.ret = T.lor(ex.ret, e2.ret)
        return ex

    @staticmethod
    def catches(handler, name):
        """Whether an exception handler catches a (named) exception."""
        import builtins
        if handler.type is None:
            return True
        ts = handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type]
        ts = [getattr(builtins, t.id, None) if isinstance(t, ast.Name) else None
              for t in ts]
        if any(t in (Exception, BaseException) for t in ts):
            return True
        e = getattr(builtins, name.split(":")[0], None)
        if not isinstance(e, type) or not issubclass(e, BaseException) or None in ts:
            raise Unsupported("exception of unknown kind")
        return issubclass(e, tuple(ts))

    # -- assignment ----------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.index(t.slice, fr)
            self.lift_gates(lambda b, i, x: self.setitem(b, i, x), base, idx, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            if isinstance(v, Gate):
                n = len(t.elts)
                parts = self.lift_gates(lambda x: tuple(self.iterate(x, n)), v)
                if isinstance(parts, Gate):
                    raise Unsupported("gated unpacking")
                items = list(parts)
            else:
                items = self.iterate(v, len(t.elts))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(items) - (len(t.elts) - 1)
                items = items[:i] + [list(items[i:i + k])] + items[i + k:]
                for tt, x in zip(t.elts, items):
                    self.assign(tt.value if isinstance(tt, ast.Starred) else tt, x, fr)
                return
            if len(items) != len(t.elts):
                raise PyError("ValueError: unpacking")
            for tt, x in zip(t.elts, items):
                self.assign(tt, x, fr)
        else:
            raise Unsupported("assignment target")

    def setattr(self, base, attr, v):
        base = self.resolve(base)
        if isinstance(base, Gate):
            for c, x in ((base.cond, base.a), (T.lnot(base.cond), base.b)):
                n = self.push(c)
                self.setattr(x, attr, v)
                self.pop(n)
            return
        if isinstance(base, Obj) and isinstance(base.cls, model.Class):
            st = base.cls.find_setter(attr)
            if st is not None:
                self.call_func(st, [v], {}, base)
                return
        if isinstance(base, Obj):
            if attr in base.attrs:
                old = base.attrs[attr]
                for c in reversed(self.pc[getattr(base, "pc0", 0):]):
                    v = merge(c, v, old)
            base.attrs[attr] = v
            return
        if isinstance(base, Opq):
            raise Unsupported(f"attribute write on opaque value .{attr}")
        if isinstance(base, (ModRef,)):
            raise Unsupported("module attribute write")
        if hasattr(base, "native_setattr"):
            base.native_setattr(self, attr, v)
            return
        raise Unsupported(f"attribute write .{attr}")

    # -- indexing ------------------------------------------------------------
    def index(self, n, fr):
        if isinstance(n, ast.Tuple):
            return tuple(self.index(x, fr) for x in n.elts)
        if isinstance(n, ast.Slice):
            f = [None if x is None else self.resolve(self.ev(x, fr))
                 for x in (n.lower, n.upper, n.step)]
            return slice(*f)
        return self.resolve(self.ev(n, fr))

    def const_mask(self, m):
        """Whether a mask is constant (its elements are folded where they are)."""
        if not all(isinstance(d, int) for d in m.dims):
            return False
        if m.data.size <= 64:
            for i, x in np.ndenumerate(m.data):
                if isinstance(x, T.Node):
                    k = self.constant(x)
                    if k is None:
                        return False
                    m.data[i] = k
        return all(T.is_num(x) for x in m.data.flat)

    def norm_key(self, base, key):
        key = list(key) if isinstance(key, tuple) else [key]
        out = []
        used = 0
        for k in key:
            if isinstance(k, Arr) and k.kind == "b":
                used += k.ndim
            elif k is None or k is Ellipsis:
                pass
            else:
                used += 1
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (base.ndim - used)
            else:
                out.append(k)
        if not any(k is Ellipsis for k in key):
            out += [slice(None)] * (base.ndim - used)
        if used > base.ndim:
            raise PyError("IndexError: too many indices")
        return out

    def gate_steps(self, key):
        """Key whose slice steps are gated constants, as a gate of keys (or None)."""
        ks = key if isinstance(key, tuple) else (key,)
        for i, k in enumerate(ks):
            if isinstance(k, slice) and isinstance(k.step, T.Node) and \
                    k.step.op == "ite" and decide.constant(k.step) is None:
                c, a, b = k.step.args
                alt = [ks[:i] + (slice(k.start, k.stop, x),) + ks[i + 1:]
                       for x in (a, b)]
                if not isinstance(key, tuple):
                    alt = [x[0] for x in alt]
                return Gate(c, *alt)
        return None

    def getitem(self, base, key):
        if isinstance(base, Arr):
            if isinstance(key, self.np.Cross):
                raise Unsupported("cross index of booleans")
            g = self.gate_steps(key)
            if g is not None:
                return self.lift_gates(lambda k: self.getitem(base, k), g)
            return simplify0(self.arr_get(base, key))
        if isinstance(base, range):
            if not isinstance(key, slice):
                base = list(base)
            elif not any(isinstance(x, T.Node) for x in (key.start, key.stop, key.step)):
                return base[key]
        if isinstance(base, (list, tuple)):
            if isinstance(key, slice):
                if any(isinstance(x, T.Node) for x in (key.start, key.stop, key.step)):
                    raise Unsupported("symbolic slice of list")
                return base[key]
            if isinstance(key, (int, bool)):
                if not -len(base) <= key < len(base):
                    raise PyError("IndexError: list index out of range")
                return base[key]
            if isinstance(key, T.Node) and base:
                out = base[-1]
                for i in range(len(base) - 2, -1, -1):
                    c = T.lor(T.app("eq", key, i), T.app("eq", key, i - len(base)))
                    out = merge(c, base[i], out)
                return out
            if key is None or isinstance(key, (tuple, list, str, float, dict)):
                raise PyError("TypeError: list indices must be integers or slices")
            raise Unsupported("list index")
        if isinstance(base, dict):
            if isinstance(key, (Opq, T.Node, Arr)):
                return Opq(T.opaque("dictget", (self.termify(key),)))
            if key in base:
                return base[key]
            if isinstance(base, DefaultV):
                if self.cond(self.base_pc) is not True:
                    raise Unsupported("conditional item of a defaultdict")
                base[key] = self.call(base.factory, [], {})
                return base[key]
            raise PyError(f"KeyError: {key}")
        if isinstance(base, (str, bytes)) and isinstance(key, (int, slice)):
            return base[key]
        if isinstance(base, Opq):
            return Opq(T.opaque("getitem", (base.node, self.termify(key))))
        if is_scalar(base):
            raise PyError("TypeError: scalar is not subscriptable")
        if base is None:
            raise PyError("TypeError: None is not subscriptable")
        if isinstance(base, Obj) and isinstance(base.cls, model.Class):
            f = base.cls.find("__getitem__")
            if f is not None:
                return self.call_func(f, [key], {}, base)
        if isinstance(base, Ext) and base.name.startswith(("typing.", "builtins.")):
            return base     # a type
        if isinstance(base, Obj) and hasattr(base, "item"):
            return base.item(key)
        raise Unsupported(f"subscript of {type(base).__name__}")

    def arr_get(self, a, key):
        key = self.norm_key(a, key)
        key = [self.np.as_index(self, k) for k in key]
        # boolean masks and integer arrays
        adv = [i for i, k in enumerate(key) if isinstance(k, Arr)]
        if adv:
            return self.adv_get(a, key, adv)
        data, dims, npkey = a.data, [], []
        post = []
        ax = 0
        for k in key:
            if k is None:
                npkey.append(None)
                dims.append(1)
                continue
            d = a.dims[ax]
            if isinstance(k, slice):
                dd, nk, fix = self.slice_dim(d, k)
                npkey.append(nk)
                if fix is not None:
                    post.append((d, fix))
                dims.append(dd)
            elif isinstance(d, int):
                if isinstance(k, T.Node):
                    return self.select(a, key, ax, k)
                if not isinstance(k, (int, bool)):
                    if isinstance(k, float) and k % 1:
                        raise PyError("IndexError: index out of bounds")
                    raise Unsupported("index kind")
                if not -d <= k < d:
                    raise PyError("IndexError: index out of bounds")
                npkey.append(int(k))
            else:
                npkey.append(0)
                post.append((d, lambda x, d=d, k=k: T.at(d, x, k)))
            ax += 1
        view = data[tuple(npkey)]
        if not isinstance(view, np.ndarray):
            v = np.empty((), dtype=object)
            v[()] = view
            view = v
        if dims == [] and view.ndim:
            raise Unsupported("index result")
        out = Arr(view, dims, a.kind)
        for d, fix in post:
            new = np.empty(out.data.shape, dtype=object)
            for i in np.ndindex(*out.data.shape):
                new[i] = fix(out.data[i])
            out = Arr(new, out.dims, a.kind)
        # recompute concrete dims
        out.dims = tuple(dd if isinstance(dd, T.Dim) else n
                         for dd, n in zip(out.dims, out.data.shape))
        return out

    def slice_dim(self, d, k):
        st = (k.start, k.stop, k.step)
        if isinstance(d, int):
            st = tuple(decide.constant(x) if isinstance(x, T.Node) else x for x in st)
            if any(x is None and y is not None for x, y in zip(
                    st, (k.start, k.stop, k.step))):
                raise Unsupported("symbolic slice of a concrete dimension")
            st = tuple(int(x) if x is not None else None for x in st)
            return -1, slice(*st), None
        if st == (None, None, None) or (st[0] == 0 and st[1:] == (None, None)) or \
                st == (None, None, 1):
            return d, slice(None), None
        if d.base is None and st == (None, None, -1):
            return d, slice(None), lambda x: T.at(
                d, x, T.sub(T.sub(T.dimlen(d), 1), T.rowindex(d)))
        if d.base is None and st[2] in (None, 1) and isinstance(
                st[0], (int, type(None))) and isinstance(st[1], (int, type(None))):
            lo = st[0] or 0
            hi = st[1] if st[1] is not None else 0
            if lo >= 0 and hi <= 0:
                nd = T.Dim._all.setdefault(("cut", d, lo - hi), T.Dim(
                    f"{d.name}-{lo - hi}"))
                return nd, slice(None), lambda x: T.at(
                    d, x, T.add(T.rowindex(nd), lo)) if not T.is_num(x) else x
            if lo == 0 and hi > 0 or (lo >= 0 and hi > lo):
                raise Unsupported("fixed-length slice of a symbolic dimension")
        raise Unsupported("slice of a symbolic dimension")

    def select(self, a, key, ax, k):
        """Index a concrete dimension by a term."""
        n = a.dims[ax]
        pos = [i for i, x in enumerate(key) if x is not None][ax]
        outs = []
        for i in range(n):
            kk = list(key)
            kk[pos] = i
            outs.append(to_arr(simplify0(self.arr_get(a, tuple(kk)))))
        r = outs[-1]
        for i in range(n - 2, -1, -1):
            c = T.lor(T.app("eq", k, i), T.app("eq", k, i - n))
            r = elementwise(lambda x, y, c=c: T.ite(c, x, y), outs[i], r)
        return to_arr(r)

    def pick(self, alts, k):
        """alts[k] for a term k."""
        if T.is_num(k):
            return alts[int(k)]
        n = len(alts)
        out = alts[-1]
        for i in range(n - 2, -1, -1):
            out = T.ite(T.lor(T.app("eq", k, i), T.app("eq", k, i - n)), alts[i], out)
        return out

    def adv_get(self, a, key, adv):
        if len(adv) == 1:
            i = adv[0]
            k = key[i]
            ax = sum(1 if not (isinstance(x, Arr) and x.kind == "b") else x.ndim
                     for x in key[:i] if x is not None)
            if k.kind == "b":
                if self.const_mask(k):
                    m = k.data.astype(bool)
                    pre = self.arr_get(a, tuple(
                        key[:i] + [slice(None)] * k.ndim + key[i + 1:]))
                    npax = sum(1 for x in key[:i] if x is None or isinstance(x, slice))
                    for d, e in zip(pre.dims[npax:], k.dims):
                        if isinstance(d, int) and isinstance(e, int) and d != e:
                            raise PyError("IndexError: boolean index did not match")
                    data = pre.data[(slice(None),) * npax + (m,)]
                    dims = pre.dims[:npax] + (data.shape[npax],) + \
                        pre.dims[npax + k.ndim:]
                    return Arr(data, dims, a.kind)
                if i == 0 and all(isinstance(d, int) for d in k.dims) and \
                        k.dims == a.dims[:k.ndim] and all(
                        isinstance(x, slice) and x == slice(None) for x in key[1:]):
                    return Sel(a.copy(), k.copy())
                if k.ndim == 1:
                    d = k.dims[0]
                    da = a.dims[ax]
                    if d is not da:
                        if isinstance(d, T.Dim) and isinstance(da, int) or \
                                isinstance(da, T.Dim) and isinstance(d, int) or \
                                isinstance(d, int):
                            raise Unsupported("mask on a concrete dimension")
                        raise Unsupported("mask of another dimension")
                    if isinstance(d, int):
                        raise Unsupported("symbolic mask of a concrete dimension")
                    sd = T.subdim(d, k.data.flat[0])
                    npax = sum(1 for x in key[:i] if x is None or isinstance(x, slice))
                    pre = self.arr_get(a, tuple(key[:i] + [slice(None)] + key[i + 1:]))
                    dims = pre.dims[:npax] + (sd,) + pre.dims[npax + 1:]
                    return Arr(pre.data.copy(), dims, a.kind)
                raise Unsupported("multi-dimensional mask")
            # integer array
            d = a.dims[ax]
            npax = sum(1 for x in key[:i] if x is None or isinstance(x, slice))
            if isinstance(d, int) and not all(T.is_num(x) for x in k.data.flat):
                k = to_arr(elementwise(self.number, k))
                for x in k.data.flat:
                    if T.is_num(x) and not -d <= x < d:
                        raise PyError("IndexError: index out of bounds")
            if isinstance(d, int) and not all(T.is_num(x) for x in k.data.flat):
                if not 0 < d <= 24:
                    raise Unsupported("symbolic index of a long dimension")
                pre = self.arr_get(a, tuple(key[:i] + [slice(None)] + key[i + 1:]))
                src = np.moveaxis(pre.data, npax, 0)
                out = np.empty(k.data.shape + src.shape[1:], dtype=object)
                for j in np.ndindex(*k.data.shape):
                    for m in np.ndindex(*src.shape[1:]):
                        out[j + m] = self.pick([src[(r,) + m] for r in range(d)],
                                               k.data[j])
                nk = k.data.ndim
                out = np.moveaxis(out, list(range(nk)), list(range(npax, npax + nk)))
                return Arr(out, pre.dims[:npax] + k.dims + pre.dims[npax + 1:], a.kind)
            if isinstance(d, int) and all(T.is_num(x) for x in k.data.flat) and all(
                    isinstance(x, int) for x in k.dims):
                pre = self.arr_get(a, tuple(key[:i] + [slice(None)] + key[i + 1:]))
                ki = k.data.astype(int)
                if ki.size and (ki.min() < -d or ki.max() >= d):
                    raise PyError("IndexError: index out of bounds")
                data = np.take(pre.data, ki, axis=npax)
                dims = pre.dims[:npax] + k.dims + pre.dims[npax + 1:]
                return Arr(data, dims, a.kind)
            if k.ndim == 1 and not isinstance(d, int):
                pre = self.arr_get(a, tuple(key[:i] + [slice(None)] + key[i + 1:]))
                src = np.moveaxis(pre.data, npax, 0)[0]
                rest = pre.dims[:npax] + pre.dims[npax + 1:]
                kd = k.data
                out = np.empty((kd.shape[0],) + src.shape, dtype=object)
                for j in range(kd.shape[0]):
                    for m in np.ndindex(*src.shape):
                        out[(j,) + m] = T.at(d, src[m], kd[j])
                out = np.moveaxis(out, 0, npax)
                dims = rest[:npax] + (k.dims[0],) + rest[npax:]
                return Arr(out, dims, a.kind)
            raise Unsupported("integer-array index")
        # several index arrays: pointwise on symbolic dims
        ks = [key[i] for i in adv]
        if any(k.kind == "b" for k in ks) or adv != list(range(adv[0],
                                                               adv[0] + len(adv))):
            raise Unsupported("mixed advanced indexing")
        if any(x is None for x in key[:adv[0]]):
            raise Unsupported("newaxis with advanced indexing")
        from .value import broadcast_dims
        dims = broadcast_dims(*[k.dims for k in ks])
        a0 = adv[0]
        held = a.dims[sum(1 for x in key[:a0] if x is not None):][:len(adv)]
        if all(isinstance(d, int) for d in (*held, *dims)) and all(
                T.is_num(x) for k in ks for x in k.data.flat):
            pre = self.arr_get(a, tuple(key[:a0] + [slice(None)] * len(adv)
                                        + key[a0 + len(adv):]))
            npax = sum(1 for x in key[:a0] if isinstance(x, slice))
            at = [k.data.astype(int) for k in ks]
            for k, d in zip(at, held):
                if k.size and (k.min() < -d or k.max() >= d):
                    raise PyError("IndexError: index out of bounds")
            data = pre.data[(slice(None),) * npax + tuple(at)]
            return Arr(data, pre.dims[:npax] + tuple(dims) + pre.dims[npax + len(at):],
                       a.kind)
        if len(dims) != 1:
            raise Unsupported("advanced indexing of rank > 1")
        pre = self.arr_get(a, tuple(key[:a0] + [slice(None)] * len(adv)
                                    + key[a0 + len(adv):]))
        npax = sum(1 for x in key[:a0] if isinstance(x, slice))
        n = dims[0] if isinstance(dims[0], int) else 1
        rest = pre.dims[:npax] + pre.dims[npax + len(adv):]
        src = np.moveaxis(pre.data, range(npax, npax + len(adv)), range(len(adv)))
        rshape = src.shape[len(adv):]
        out = np.empty((n,) + rshape, dtype=object)
        for j in range(n):
            ix = [np.broadcast_to(k.data, (n,))[j] for k in ks]
            for m in np.ndindex(*rshape):
                size = 1
                for t, (d, x) in enumerate(zip(pre.dims[npax:npax + len(adv)], ix)):
                    if isinstance(d, int) and not T.is_num(x):
                        size *= d
                if not 0 < size <= 64:
                    raise Unsupported("symbolic index of long dimensions")

                def gather(t, prefix):
                    if t == len(ix):
                        return src[prefix + m]
                    d, x = pre.dims[npax + t], ix[t]
                    if not isinstance(d, int):
                        return gather(t + 1, prefix + (0,))
                    if T.is_num(x):
                        return gather(t + 1, prefix + (int(x),))
                    return self.pick([gather(t + 1, prefix + (r,)) for r in range(d)], x)
                v = gather(0, ())
                for d, x in zip(pre.dims[npax:npax + len(adv)], ix):
                    if not isinstance(d, int):
                        v = T.at(d, v, x)
                out[(j,) + m] = v
        out = np.moveaxis(out, 0, npax)
        return Arr(out, rest[:npax] + (dims[0],) + rest[npax:], a.kind)

    def setitem(self, base, key, v):
        if isinstance(base, Arr):
            return self.arr_set(base, key, v)
        if isinstance(base, (list, dict)):
            pcs = self.pc[self.base_pc:]
            if isinstance(base, list):
                if not isinstance(key, int):
                    raise Unsupported("list item assignment")
                if not -len(base) <= key < len(base):
                    raise PyError("IndexError: list assignment")
            elif isinstance(key, (Opq, T.Node, Arr, Gate)):
                raise Unsupported("dict key")
            old = base[key] if isinstance(base, list) or key in base else None
            has = isinstance(base, list) or key in base
            if pcs and has:
                for c in reversed(pcs):
                    v = merge(c, v, old)
            base[key] = v
            return
        if isinstance(base, Obj) and isinstance(base.cls, model.Class):
            f = base.cls.find("__setitem__")
            if f is not None:
                return self.call_func(f, [key, v], {}, base)
        if base is None:
            raise PyError("TypeError: item assignment on None")
        raise Unsupported(f"item assignment on {type(base).__name__}")

    def masked_write(self, a, mask, v, whole=False):
        c = self.cond()
        nd = mask.ndim
        for x, y in zip(mask.dims, a.dims[:nd]):
            if not (x is y or x == y):
                raise Unsupported("mask of another shape")
        mdata = mask.data.reshape(mask.data.shape + (1,) * (a.ndim - nd))
        mdata = np.broadcast_to(mdata, a.data.shape)
        v = to_arr(v)
        if whole:
            vd = np.broadcast_to(v.data, a.data.shape)
        else:
            if v.ndim and nd == 1 and isinstance(v.dims[0], T.Dim) and \
                    v.ndim == a.ndim:
                d = v.dims[0]
                want = T.subdim(a.dims[0], mask.data.flat[0]) if isinstance(
                    a.dims[0], T.Dim) else None
                if d is not want:
                    raise Unsupported("rows of another selection")
            elif v.ndim > a.ndim - nd:
                raise Unsupported("masked assignment value")
            vd = np.broadcast_to(v.data, a.data.shape)
        for i in np.ndindex(*a.data.shape):
            a.data[i] = T.ite(T.land(c, mdata[i]), self.cast(a, vd[i]), a.data[i])

    def arr_set(self, a, key, v, whole=False):
        if isinstance(key, self.np.Cross):
            v = self.resolve(v)
            m = key.mask()
            if m.ndim > a.ndim or not is_scalar(v):
                raise Unsupported("cross index of booleans")
            return self.masked_write(a, m, v)
        key = self.norm_key(a, key)
        key = [self.np.as_index(self, k) for k in key]
        adv = [i for i, k in enumerate(key) if isinstance(k, Arr)]
        v = self.resolve(v)
        if isinstance(v, (Opq,)):
            v = v.node
        if a.kind == "i" and isinstance(v, float) and v != v:
            raise PyError("ValueError: could not convert float NaN to integer")
        if isinstance(v, Sel):
            if key and isinstance(key[0], Arr) and key[0].kind == "b" and \
                    v.like(key[0]) and v.full.ndim == a.ndim and all(
                    isinstance(x, slice) and x == slice(None) for x in key[1:]):
                return self.masked_write(a, key[0], v.full, whole=True)
            raise Unsupported("assignment of selected elements")
        if v is None and a.kind == "o":
            v = Arr(np.full((), None, dtype=object), (), "o")
        if a.kind == "o" and isinstance(v, Arr):
            v = self.np.folded(self, v)
        if adv:
            k = key[adv[0]]
            if k.kind == "b":
                self.const_mask(k)
            if len(adv) == 1 and k.kind == "b" and all(
                    isinstance(x, slice) and x == slice(None)
                    for x in key[:adv[0]] + key[adv[0] + 1:]) and adv[0] == 0:
                if self.const_mask(k):
                    m = k.data.astype(bool)
                    va = to_arr(v)
                    cur = a.data[m]
                    nv = fit_values(va, cur.shape, a)
                    c = self.cond()
                    new = np.empty(cur.shape, dtype=object)
                    for i in np.ndindex(*cur.shape):
                        new[i] = T.ite(c, self.cast(a, nv[i]), cur[i])
                    a.data[m] = new
                    return
                return self.masked_write(a, k, v)
            if len(adv) == 1 and k.kind == "b" and k.ndim == 1 and adv[0] > 0 and all(
                    isinstance(x, (int, slice)) for x in key[:adv[0]]) and \
                    not self.const_mask(k):
                # a view of the selected rows, then the masked axis
                sub = self.arr_get(a, tuple(key[:adv[0]] + [slice(None)]
                                            + key[adv[0] + 1:]))
                ax = sum(isinstance(x, slice) for x in key[:adv[0]])
                if ax == 0:
                    return self.masked_write(sub, k, v, whole)
                if is_scalar(v) or whole:
                    view = Arr(np.moveaxis(sub.data, ax, 0),
                               (sub.dims[ax],) + sub.dims[:ax] + sub.dims[ax + 1:],
                               sub.kind)
                    if whole:
                        v = to_arr(v)
                        v = Arr(np.moveaxis(v.data, ax, 0), view.dims, v.kind)
                    return self.masked_write(view, k, v, whole)
            if len(adv) == 1 and k.kind == "b" and adv[0] == 0:
                # rows by mask, then a view of the columns
                sub = self.arr_get(a, tuple([slice(None)] * k.ndim + key[1:]))
                if self.const_mask(k) and np.shares_memory(sub.data, a.data):
                    return self.arr_set(sub, k, v)
                return self.masked_write(sub, k, v)
            if all(all(T.is_num(x) for x in key[i].data.flat) and all(
                    isinstance(d, int) for d in key[i].dims) for i in adv) and all(
                    isinstance(d, int) for d in a.dims):
                nk = tuple(x.data.astype(bool if x.kind == "b" else int)
                           if isinstance(x, Arr) else x for x in key)
                cur = a.data[nk]
                nv = fit_values(to_arr(v), cur.shape, a)
                c = self.cond()
                new = np.empty(cur.shape, dtype=object)
                for i in np.ndindex(*cur.shape):
                    new[i] = T.ite(c, self.cast(a, nv[i]), cur[i])
                a.data[nk] = new
                return
            raise Unsupported("advanced assignment")
        # integer index on a symbolic dimension: predicated by the row index
        cond = self.cond()
        vkey = []
        ax = 0
        for k in key:
            if k is None:
                vkey.append(None)
                continue
            d = a.dims[ax]
            if isinstance(d, T.Dim) and not isinstance(k, slice):
                i = k
                if isinstance(i, int) and i < 0:
                    i = T.add(T.dimlen(d), i)
                cond = T.land(cond, T.app("eq", T.rowindex(d), i))
                vkey.append(0)
            elif isinstance(d, T.Dim):
                if k != slice(None):
                    raise Unsupported("slice assignment on a symbolic dimension")
                vkey.append(slice(None))
            elif isinstance(k, T.Node):
                raise Unsupported("symbolic index assignment")
            else:
                vkey.append(k if isinstance(k, slice) else int(k))
            ax += 1
        dims = []
        ax = 0
        for k in vkey:
            if k is None:
                dims.append(1)
                continue
            if isinstance(k, slice):
                dims.append(a.dims[ax])
            ax += 1
        try:
            view = a.data[tuple(vkey)]
        except IndexError:
            raise PyError("IndexError: index out of bounds")
        va = to_arr(v)
        if not isinstance(view, np.ndarray):
            x = simplify0(va)
            if isinstance(x, Arr):
                if x.data.size != 1:
                    raise PyError("ValueError: setting an element with a sequence")
                x = x.data.flat[0]
            idx = tuple(0 if kk is None else kk for kk in vkey)
            a.data[idx] = T.ite(cond, self.cast(a, x), a.data[idx])
            return
        tdims = [d if isinstance(d, T.Dim) else n for d, n in zip(dims, view.shape)]
        for x, y in zip(va.dims[::-1], tdims[::-1]):
            if not (x is y or x == y or x == 1):
                m = merge_dim(x, y)
                if not (m is y or m == y):
                    raise PyError("ValueError: could not broadcast input array")
        try:
            vd = np.broadcast_to(va.data, view.shape)
        except ValueError:
            raise PyError("ValueError: could not broadcast input array")
        for i in np.ndindex(*view.shape):
            view[i] = T.ite(cond, self.cast(a, vd[i]), view[i])

    # -- expressions ---------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return self.resolve(m(e, fr))

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e, fr)

    def name(self, e, fr):
        if e.id in fr.env:
            return fr.env[e.id]
        if fr.module is not None:
            key = (fr.module.name, e.id)
            if key in self.globals:
                return self.globals[key]
            t = self.prog.lookup_in_module(fr.module, e.id)
            if t is not None:
                return self.wrap(t)
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        import builtins
        if hasattr(builtins, e.id):
            return Ext("builtins." + e.id)
        raise PyError(f"NameError: {e.id}")

    def wrap(self, t):
        if isinstance(t, model.Func):
            return FuncRef(t)
        if isinstance(t, model.Class):
            return ClassRef(t)
        if isinstance(t, model.Module):
            return ModRef(t)
        if isinstance(t, str):
            return self.np.ext_const(t)
        if isinstance(t, tuple) and t[0] == "global":
            key = (t[1].name, t[2])
            if key in self.globals:
                return self.globals[key]
            fr = Frame(None, {}, t[1], len(self.pc))
            try:
                return self.ev(t[1].globals[t[2]], fr)
            except (Unsupported, PyError):
                return Opq(T.opaque("global:" + ".".join(key)))
        raise Unsupported("unresolved name")

    def e_Tuple(self, e, fr):
        return tuple(self.seq(e.elts, fr))

    def e_List(self, e, fr):
        return self.seq(e.elts, fr)

    def e_Set(self, e, fr):
        return self.np.make_set(self, self.seq(e.elts, fr))

    def seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def mapping(self, d):
        """Values that ** can unpack."""
        if d is None or is_scalar(d) or isinstance(d, (str, list, tuple, Arr)) or \
                isinstance(d, Obj) and isinstance(d.cls, model.Class) and \
                d.cls.find("keys") is None:
            raise PyError("TypeError: not a mapping")
        if not isinstance(d, dict):
            raise Unsupported("** of opaque mapping")

    def e_Dict(self, e, fr):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, fr)
                if isinstance(d, Gate):
                    raise Unsupported("gated ** mapping")
                self.mapping(d)
                out.update(d)
            else:
                kk = self.ev(k, fr)
                if isinstance(kk, (T.Node, Arr, Opq, Gate, list)):
                    raise Unsupported("symbolic dict key")
                out[kk] = self.ev(v, fr)
        return out

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, base, attr):
        return self.lift_gates(lambda b: self.getattr1(b, attr), base)

    def getattr1(self, b, attr):
        if isinstance(b, Obj):
            if isinstance(b.cls, model.Class):
                f = b.cls.find(attr)
                if f is not None and f.is_property:
                    return self.call_func(f, [], {}, b)
                if attr in b.attrs:
                    return b.attrs[attr]
                if f is not None:
                    if f.kind == "static":
                        return FuncRef(f)
                    if f.kind == "class":
                        return Bound(f, ClassRef(b.cls))
                    return Bound(f, b)
                if attr == "__class__":
                    return ClassRef(b.cls)
                a = b.cls.find_attr(attr)
                if a is not None:
                    return self.ev(a, Frame(None, {}, b.cls.module, len(self.pc)))
            elif attr in b.attrs:
                return b.attrs[attr]
            if b.label is not None:
                return Opq(T.opaque(f"{b.label}.{attr}"))
            raise PyError(f"AttributeError: no attribute {attr}" if isinstance(
                b.cls, model.Class) else f"AttributeError: {attr}")
        if isinstance(b, ModRef):
            key = (b.mod.name, attr)
            if key in self.globals:
                return self.globals[key]
            t = self.prog.lookup_in_module(b.mod, attr)
            if t is None:
                raise PyError(f"AttributeError: module {b.mod.name}.{attr}")
            return self.wrap(t)
        if isinstance(b, ClassRef):
            f = b.cls.find(attr)
            if f is not None:
                return Bound(f, b) if f.kind == "class" else FuncRef(f)
            if attr == "__name__":
                return b.cls.name
            a = b.cls.find_attr(attr)
            if a is not None:
                return self.ev(a, Frame(None, {}, b.cls.module, len(self.pc)))
            raise PyError(f"AttributeError: {attr}")
        if isinstance(b, Ext):
            if attr == "type" and b.name.startswith("numpy.") and self.np.NUMBERS.get(
                    b.name[6:]):
                return b
            return self.np.ext_const(b.name + "." + attr)
        if isinstance(b, Super):
            for c in b.cls.mro()[1:]:
                if attr in c.methods:
                    f = c.methods[attr]
                    if f.is_property:
                        return self.call_func(f, [], {}, b.self_)
                    return Bound(f, b.self_)
            if attr == "__init__":
                return Native(lambda *a, **k: None)
            raise PyError(f"AttributeError: super().{attr}")
        if isinstance(b, Arr):
            v = self.np.arr_attr(self, b, attr)
            if v is not NotImplemented:
                return v
            return ExtM(b, attr)
        if isinstance(b, Opq):
            if self.np.is_method_name(attr):
                return ExtM(b, attr)
            return Opq(T.opaque("." + attr, (b.node,)))
        if is_scalar(b):
            v = self.np.scalar_attr(self, b, attr)
            if v is not NotImplemented:
                return v
            if not T.is_opaque(b) and not hasattr(np.float64, attr) and any(
                    hasattr(t, attr) for t in (dict, list, str, bytes)):
                raise PyError(f"AttributeError: no attribute {attr}")
        if isinstance(b, (dict, str, bytes)) and not hasattr(b, attr) and not hasattr(
                collections.OrderedDict, attr) and not hasattr(
                collections.Counter, attr):
            raise PyError(f"AttributeError: no attribute {attr}")
        if isinstance(b, (list, tuple)) and hasattr(np.ndarray, attr) and not hasattr(
                b, attr):
            raise PyError(f"AttributeError: no attribute {attr}")
        if b is None:
            raise PyError(f"AttributeError: None.{attr}")
        if isinstance(b, slice) and attr in ("start", "stop", "step"):
            return getattr(b, attr)
        if isinstance(b, slice) and attr == "indices" and all(
                x is None or isinstance(x, int) for x in (b.start, b.stop, b.step)):
            def indices(n):
                if not isinstance(n, int):
                    raise Unsupported("slice.indices of an unknown length")
                return b.indices(n)
            return Native(indices)
        if hasattr(b, "native_attr"):
            return b.native_attr(self, attr)
        return ExtM(b, attr)

    def e_Subscript(self, e, fr):
        base = self.ev(e.value, fr)
        idx = self.index(e.slice, fr)
        return self.lift_gates(lambda b, i: self.getitem(b, i), base, idx)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return T.lnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.lift_gates(lambda x: self.ew("neg", x), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            def inv(x):
                if isinstance(x, Opq):
                    return Opq(T.lnot(x.node))
                if isinstance(x, Arr) and x.kind != "b" or T.is_num(x) and not \
                        isinstance(x, bool):
                    raise Unsupported("bitwise inversion")
                return elementwise(T.lnot, x, kind="b")
            return self.lift_gates(inv, v)
        raise Unsupported("unary operator")

    def ew(self, op, *vals, kind="promote"):
        if any(isinstance(v, Opq) for v in vals):
            return Opq(T.app(op, *[self.termify(v) for v in vals]))
        if any(v is None or isinstance(v, (str, Obj, dict)) for v in vals):
            raise PyError(f"TypeError: unsupported operand types for {op}")
        if op == "div":
            kind = "f"
        vals = [to_arr(v) if isinstance(v, (list, tuple)) else v for v in vals]
        return elementwise(lambda *a: T.app(op, *a), *vals, kind=kind)

    def e_BinOp(self, e, fr):
        a, b = self.ev(e.left, fr), self.ev(e.right, fr)
        return self.lift_gates(lambda x, y: self.binop(e.op, x, y), a, b)

    def binop(self, op, a, b):
        if isinstance(a, Gate) or isinstance(b, Gate):
            return self.lift_gates(lambda x, y: self.binop(op, x, y), a, b)
        if isinstance(op, ast.MatMult):
            return self.np.np_matmul(self, a, b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            o = {ast.BitAnd: "and", ast.BitOr: "or", ast.Sub: "sub",
                 ast.BitXor: "xor"}.get(type(op))
            if o is not None:
                return self.np.set_op(self, o, a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            f = T.land if isinstance(op, ast.BitAnd) else T.lor
            if isinstance(a, Opq) or isinstance(b, Opq):
                return Opq(f(self.termify(a), self.termify(b)))
            return elementwise(f, a, b, kind="b")
        o = BINOPS.get(type(op))
        if o is None:
            raise Unsupported(f"operator {type(op).__name__}")
        if isinstance(a, str) or isinstance(b, str):
            if o == "add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if o == "mul" and isinstance(a, (str, int)) and isinstance(b, (str, int)) \
                    and not (isinstance(a, str) and isinstance(b, str)):
                return a * b
            if o == "mod" and isinstance(a, str):
                return self.percent(a, b)
            if all(isinstance(v, (str, int, float, list, tuple, dict)) or v is None
                   for v in (a, b)):
                raise PyError("TypeError: unsupported operands")
            return Opq(T.opaque("str" + o, (self.termify(a), self.termify(b))))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and o == "add":
            return type(a)(list(a) + list(b))
        if isinstance(a, (list, tuple)) and isinstance(b, int) and o == "mul":
            return type(a)(list(a) * b)
        if isinstance(b, (list, tuple)) and isinstance(a, int) and o == "mul":
            return type(b)(list(b) * a)
        if isinstance(a, (list, tuple)) and not isinstance(b, Arr) and not isinstance(
                b, (list, tuple)):
            if isinstance(b, T.Node) and o == "mul":
                raise Unsupported("list times term")
            raise PyError("TypeError: list arithmetic")
        if isinstance(a, Obj) and isinstance(a.cls, model.Class):
            nm = {"add": "__add__", "sub": "__sub__", "mul": "__mul__"}.get(o)
            f = a.cls.find(nm) if nm else None
            if f is not None:
                return self.call_func(f, [b], {}, a)
        return self.ew(o, a, b)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        n0 = len(self.pc)
        vals = []
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            c = self.truth(v)
            k = self.known(c)
            vals.append((v, c))
            if k is not None and k != isand:
                break
            if i < len(e.values) - 1:
                self.push(c if isand else T.lnot(c))
        self.pop(n0)
        out, _ = vals[-1]
        for v, c in reversed(vals[:-1]):
            k = self.known(c)
            if k is not None:
                if k != isand:
                    out = v
                continue
            boolish = all(isinstance(x, bool) or T.is_boolean(x) for x in (v, out))
            if boolish:
                out = T.land(v, out) if isand else T.lor(v, out)
            elif isand:
                out = merge(c, out, v)
            else:
                out = merge(c, v, out)
        return out

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.lift_gates(lambda a, b: self.compare(op, a, b), left, right)
            if out is True:
                out = v
            elif isinstance(v, (Arr, Opq)) or isinstance(out, (Arr, Opq)):
                raise Unsupported("chained array comparison")
            else:
                out = T.land(out, v)
            left = right
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same(a, b)
            return r if isinstance(op, ast.Is) else T.lnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else T.lnot(r)
        if isinstance(op, (ast.Gt, ast.GtE)):
            return self.compare(ast.Lt() if isinstance(op, ast.Gt) else ast.LtE(), b, a)
        o = CMPOPS[type(op)]
        basic = (str, type(None), bytes)
        if isinstance(a, basic) or isinstance(b, basic):
            if isinstance(a, Opq) or isinstance(b, Opq):
                x = T.opaque("eq", tuple(sorted(
                    (self.termify(a), self.termify(b)), key=str)))
                return T.app("bool", x) if o == "eq" else T.lnot(T.app("bool", x))
            if o in ("eq", "ne"):
                if a is None and isinstance(b, Arr) or b is None and isinstance(a, Arr):
                    return self.np.against_none(o, b if a is None else a)
                if isinstance(a, Arr) or isinstance(b, Arr):
                    raise Unsupported("array compared with string")
                r = type(a) is type(b) and a == b
                return r if o == "eq" else not r
            if isinstance(a, str) and isinstance(b, str):
                return a < b if o == "lt" else a <= b
            raise PyError("TypeError: comparison")
        if isinstance(a, SetV) and isinstance(b, SetV):
            sub = not self.np.set_op(self, "sub", a, b)
            r = sub and {"eq": len(a) == len(b), "ne": len(a) == len(b),
                         "le": True, "lt": len(a) < len(b)}[o]
            return not r if o == "ne" else r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
                o in ("eq", "ne"):
            if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple) or \
                    isinstance(a, SetV) != isinstance(b, SetV):
                return o == "ne"
            r = True
            for x, y in zip(a, b):
                v = self.lift_gates(lambda p, q: self.compare(ast.Eq(), p, q), x, y)
                r = T.land(r, self.truth(v))
            return r if o == "eq" else T.lnot(r)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq(T.app(o, self.termify(a), self.termify(b)))
        if isinstance(a, (slice, range)) or isinstance(b, (slice, range)):
            if o not in ("eq", "ne"):
                raise PyError("TypeError: comparison")
            if type(a) is not type(b):
                if isinstance(a, Arr) or isinstance(b, Arr):
                    raise Unsupported("array compared with a slice")
                return o == "ne"
            r = self.compare(ast.Eq(), (a.start, a.stop, a.step),
                             (b.start, b.stop, b.step)) if isinstance(a, slice) \
                else a == b
            return r if o == "eq" else T.lnot(r)
        if isinstance(a, (Obj, dict)) or isinstance(b, (Obj, dict)):
            if isinstance(a, Obj) and isinstance(a.cls, model.Class):
                f = a.cls.find("__eq__")
                if f is not None:
                    r = self.call_func(f, [b], {}, a)
                    return r if o == "eq" else T.lnot(self.truth(r))
            if isinstance(a, Obj) and isinstance(b, Obj):
                return (a is b) == (o == "eq")
            raise Unsupported("object comparison")
        if isinstance(a, (ClassRef, FuncRef, Ext)) or isinstance(
                b, (ClassRef, FuncRef, Ext)):
            r = self.same(a, b)
            return r if o == "eq" else T.lnot(r)
        return elementwise(lambda x, y: T.app(o, x, y), a, b, kind="b")

    def same(self, a, b):
        if a is None or b is None:
            if a is None and b is None:
                return True
            x = b if a is None else a
            if isinstance(x, Opq):
                return T.app("bool", T.opaque("isNone", (x.node,)))
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            x = b if isinstance(a, bool) else a
            y = a if isinstance(a, bool) else b
            if T.is_boolean(x):
                return x if y else T.lnot(x)
            if isinstance(x, Opq):
                return T.app("bool", T.opaque("is", (x.node, y)))
            return False
        if isinstance(a, ClassRef) and isinstance(b, ClassRef):
            return a.cls is b.cls
        if isinstance(a, FuncRef) and isinstance(b, FuncRef):
            return a.func is b.func
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, Opq) or isinstance(b, Opq):
            return T.app("bool", T.opaque("is", (self.termify(a), self.termify(b))))
        return a is b

    def contains(self, a, b):
        if isinstance(b, dict):
            b = list(b)
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, range):
            b = list(b)
        if isinstance(b, (list, tuple)):
            r = False
            for x in b:
                v = self.lift_gates(lambda p, q: self.compare(ast.Eq(), p, q), a, x)
                r = T.lor(r, self.truth(v))
            return r
        if b is None or is_scalar(b) and not T.is_opaque(b) or isinstance(b, Obj) and \
                isinstance(b.cls, model.Class) and not any(b.cls.find(n) for n in (
                    "__contains__", "__iter__", "__getitem__")):
            raise PyError("TypeError: not iterable")
        return T.app("bool", T.opaque("in", (self.termify(a), self.termify(b))))

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        k = self.known(c)
        if k is not None:
            return self.ev(e.body if k else e.orelse, fr)
        n = self.push(c)
        ok = [True, True]
        a = b = None
        try:
            a = self.ev(e.body, fr)
        except PyError as x:
            ok[0] = x
        self.pop(n)
        n = self.push(T.lnot(c))
        try:
            b = self.ev(e.orelse, fr)
        except PyError as x:
            ok[1] = x
        self.pop(n)
        if ok[0] is not True and ok[1] is not True:
            raise ok[0]
        if ok[0] is not True:
            return b
        if ok[1] is not True:
            return a
        return merge(c, a, b)

    def e_Lambda(self, e, fr):
        return Closure(e, fr.env, fr.func)

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        if self.cond(fr.base) is not True:
            raise Unsupported("conditional yield")
        fr.yields.append(v)
        return None

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                p = self.resolve(self.ev(v.value, fr))
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                if v.conversion in (-1, 115, 114) and isinstance(spec, str):
                    p = self.in_words(p, spec, v.conversion == 114)
                parts.append(p)
        if all(isinstance(p, (str, int)) for p in parts):
            return "".join(str(p) for p in parts)
        return Opq(T.opaque("fstring", tuple(self.termify(p) for p in parts)))

    def percent(self, fmt, args):
        """printf-style formatting of values that are known or have a numeral."""
        xs = args if isinstance(args, tuple) else (args,)
        xs = [self.resolve(x) for x in xs]
        ws = [x if isinstance(x, (str, int, float)) else self.in_words(x) for x in xs]
        if not all(isinstance(w, (str, int, float)) for w in ws) or any(
                w is not x for w, x in zip(ws, xs)) and set(
                re.findall(r"%(.)", fmt)) - {"s", "%"}:
            return Opq(T.opaque("strmod", (self.termify(fmt), *map(self.termify, xs))))
        try:
            return fmt % tuple(ws)
        except (TypeError, ValueError):
            raise PyError("ValueError: invalid format of a number")

    def in_words(self, p, spec="", as_repr=False):
        """A value as text: unknown numbers by a numeral of their own, if there are any."""
        if isinstance(p, (str, int, float)):
            try:
                return repr(p) if as_repr else format(p, spec)
            except (TypeError, ValueError):
                raise PyError("ValueError: invalid format of a number")
        if isinstance(p, T.Node) and not spec and getattr(self, "numerals", None) \
                is not None and not T.is_boolean(p):
            for k, v in self.numerals.items():
                if v is p:
                    return str(k)
            k = 7001.5 + len(self.numerals)
            while k in self.numerals:
                k += 1
            self.numerals[k] = p
            return str(k)
        return p

    def comp(self, gens, fr, emit):
        if not gens:
            emit()
            return
        g = gens[0]
        for x in self.iterate(self.ev(g.iter, fr)):
            self.assign(g.target, x, fr)
            skip = False
            n = len(self.pc)
            for t in g.ifs:
                c = self.truth(self.ev(t, fr))
                k = self.known(c)
                if k is False:
                    skip = True
                    break
                if k is None:
                    raise Unsupported("conditional comprehension")
            if not skip:
                self.comp(gens[1:], fr, emit)
            self.pop(n)

    def scoped(self, e, fr, emit_expr):
        saved = dict(fr.env)
        out = []
        try:
            self.comp(e.generators, fr, lambda: out.append(emit_expr()))
        finally:
            fr.env.clear()
            fr.env.update(saved)
        return out

    def e_ListComp(self, e, fr):
        return self.scoped(e, fr, lambda: self.ev(e.elt, fr))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        return self.np.make_set(self, self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        return dict(self.scoped(e, fr, lambda: (self.ev(e.key, fr),
                                                self.ev(e.value, fr))))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                "super" not in fr.env:
            f = fr.func
            sn = f.self_name()
            return Super(f.cls, fr.env.get(sn))
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and \
                "locals" not in fr.env:
            return dict(fr.env)
        fn = self.ev(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, fr))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                self.mapping(d)
                for kk, v in d.items():
                    if kk in kwargs:
                        raise PyError("TypeError: repeated keyword")
                    kwargs[kk] = v
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.lift_gates(lambda f: self.call(f, args, kwargs, fr), fn)

    def call(self, fn, args, kwargs, fr=None):
        if isinstance(fn, FuncRef):
            return self.call_func(fn.func, args, kwargs)
        if isinstance(fn, Bound):
            return self.call_func(fn.func, args, kwargs, fn.self_)
        if isinstance(fn, ClassRef):
            q = fn.cls.qualname
            if q in self.native:
                return self.native[q](self, args, kwargs, None)
            return self.construct(fn.cls, args, kwargs)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kwargs)
        if isinstance(fn, Native):
            return fn.fn(*args, **kwargs)
        if isinstance(fn, Ext):
            if fn.name in self.ext:
                return self.ext[fn.name](self, args, kwargs)
            return self.np.call_ext(self, fn.name, args, kwargs)
        if isinstance(fn, ExtM):
            return self.np.call_method(self, fn.base, fn.name, args, kwargs)
        if isinstance(fn, Obj) and isinstance(fn.cls, model.Class):
            f = fn.cls.find("__call__")
            if f is not None:
                return self.call_func(f, args, kwargs, fn)
        if isinstance(fn, Obj) and getattr(fn, "native_call", None) is not None:
            try:
                return fn.native_call(self, *[self.resolve(a) for a in args], **{
                    k: self.resolve(v) for k, v in kwargs.items()})
            except self.np.OpqArg:
                pass
            except TypeError as e:
                raise Unsupported(f"call of {fn.cls}: {e}")
            return Opq(T.opaque("apply", tuple(
                self.termify(a) for a in [fn] + list(args) + list(kwargs.values()))))
        if isinstance(fn, Opq):
            return Opq(T.opaque("apply", (fn.node,) + tuple(
                self.termify(a) for a in list(args) + list(kwargs.values()))))
        if fn is None or is_scalar(fn):
            raise PyError("TypeError: not callable")
        raise Unsupported(f"call of {type(fn).__name__}")

    def call_closure(self, fn, args, kwargs):
        if self.depth > MAXDEPTH:
            raise Unsupported("inlining depth")
        a = fn.node.args
        local = self.bind(a, args, kwargs, None if fn.func is None else fn.func,
                          defaults_env=fn.env)
        env = ChainEnv(local, fn.env, fn.node)
        fr = Frame(fn.func, env, self.frames[-1].module if fn.func is None
                   else fn.func.module, len(self.pc))
        return self.run(fr, fn.node)

    # -- helpers ---------------------------------------------------------------
    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Gate):
            return T.ite(v.cond, self.truth(v.a), self.truth(v.b))
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, T.Node):
            return v if T.is_boolean(v) else T.app("bool", v)
        if v is None:
            return False
        if isinstance(v, (str, bytes, list, tuple, dict)):
            return bool(len(v))
        if isinstance(v, Arr):
            if all(isinstance(d, int) for d in v.dims) and v.data.size == 1:
                return self.truth(v.data.flat[0])
            if any(isinstance(d, T.Dim) and d.base is None for d in v.dims):
                raise PyError("ValueError: ambiguous truth value")
            raise PyError("ValueError: truth value of an array is ambiguous")
        if isinstance(v, Opq):
            return T.app("bool", T.opaque("truth", (v.node,)))
        if isinstance(v, Obj) and isinstance(v.cls, model.Class):
            f = v.cls.find("__len__")
            if f is not None:
                return self.truth(self.call_func(f, [], {}, v))
            return True
        return True

    def iterate(self, v, n=None):
        v = self.resolve(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if not v.ndim:
                raise PyError("TypeError: iteration over a 0-d array")
            if isinstance(v.dims[0], int):
                return [self.getitem(v, i) for i in range(v.dims[0])]
            if n is not None:
                return [self.getitem(v, i) for i in range(n)]
            raise Unsupported("iteration over a symbolic dimension")
        if isinstance(v, Opq):
            if n is not None:
                return [Opq(T.opaque("getitem", (v.node, i))) for i in range(n)]
            raise Unsupported("iteration over an opaque value")
        if v is None or is_scalar(v):
            raise PyError("TypeError: not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    def termify(self, v):
        """A term standing for a value, for congruence of opaque operations."""
        v = self.resolve(v)
        if is_scalar(v):
            return v
        if isinstance(v, Opq):
            return v.node
        if v is None:
            return T.opaque("None")
        if isinstance(v, str):
            return T.opaque("str:" + v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return v.data[()]
            return T.opaque("array" + str(tuple(
                d if isinstance(d, int) else d.name for d in v.dims)),
                tuple(v.data.flat))
        if isinstance(v, (list, tuple)):
            return T.opaque("seq", tuple(self.termify(x) for x in v))
        if isinstance(v, dict):
            return T.opaque("dict:" + ",".join(map(str, v)), tuple(
                self.termify(x) for x in v.values()))
        if isinstance(v, slice):
            return T.opaque("slice", tuple(self.termify(x) for x in (
                v.start, v.stop, v.step)))
        if isinstance(v, Obj):
            nm = v.cls.name if isinstance(v.cls, model.Class) else str(v.cls)
            inner = getattr(v, "term_args", None)
            return T.opaque(f"obj:{v.label or nm}", tuple(
                self.termify(x) for x in inner()) if inner else ())
        if isinstance(v, Gate):
            return T.ite(v.cond, self.termify(v.a), self.termify(v.b))
        if isinstance(v, Ext):
            return T.opaque("ext:" + v.name)
        if isinstance(v, FuncRef):
            return T.opaque("func:" + v.func.qualname)
        if isinstance(v, ClassRef):
            return T.opaque("class:" + v.cls.qualname)
        return T.opaque(type(v).__name__)


class ChainEnv(dict):
    """Environment of a nested function: locals, then the enclosing environment."""

    def __init__(self, local, outer, node):
        super().__init__(local)
        self.outer = outer
        self.nonlocals = {n for st in ast.walk(node) if isinstance(st, ast.Nonlocal)
                          for n in st.names}

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.outer

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.outer[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        if k in self.nonlocals:
            self.outer[k] = v
        else:
            dict.__setitem__(self, k, v)
