"""Obligations on lifted functions: equality with a specification term."""
import numpy as np

from . import decide, term as T
from .interp import Budget, Diverges, Lifter, PyError
from .value import Arr, Gate, Obj, Opq, Unsupported, is_scalar, simplify0, to_arr

# Errors of the lifted code that the analysis derives reliably (besides `raise`).
SURE = ("NameError", "TypeError: missing argument", "TypeError: unexpected argument",
        "TypeError: too many arguments", "TypeError: multiple values", "KeyError",
        "IndexError: index out of bounds", "IndexError: too many indices", "AxisError",
        "ValueError: ambiguous truth value", "ValueError: shape",
        "IndexError: list", "IndexError: boolean index", "ValueError: unpacking", "AttributeError: module",
        "TypeError: None is not subscriptable", "TypeError: not callable",
        "TypeError: scalar is not subscriptable", "TypeError: unsupported operand",
        "TypeError: not iterable", "TypeError: isinstance() arg 2", "TypeError: write() argument", "OSError: not a gzip",
        "UnicodeDecodeError", "json.JSONDecodeError", "xml.etree.ElementTree.ParseError",
        "TypeError: a bytes-like object", "TypeError: number from a dictionary",
        "AttributeError: no attribute", "TypeError: not a mapping",
        "TypeError: not a number", "TypeError: attribute name", "AttributeError: None.",
        "AttributeError: super()", "TypeError: comparison", "TypeError: list arithmetic",
        "TypeError: iteration over", "TypeError: len()", "TypeError: object has no len",
        "TypeError: repeated keyword", "ValueError: zero-size", "ValueError: matmul",
        "ValueError: cannot reshape", "ValueError: concatenation of arrays",
        "ValueError: dimensions do not match", "ValueError: need at least one array",
        "ValueError: could not broadcast", "ValueError: setting an element",
        "ValueError: invalid literal", "ValueError: invalid index", "ValueError: could not convert",
        "ValueError: array larger than output file",
        "ValueError: cannot select an axis", "TypeError: no particles",
        "StopIteration", "FileNotFoundError")


class Lifted:
    """Outcome of lifting one call: value, raise conditions, taint."""

    def __init__(self, lifter):
        self.l = lifter
        self.value = None
        self.failed = None      # reason why nothing was lifted
        self.error = None       # the call certainly raises

    @property
    def taint(self):
        return self.l.taint


def lift(prog, body, assume=(), budget=20.0, setup=None):
    """Run `body(lifter)` (which calls lifted functions) and collect the outcome."""
    l = Lifter(prog, assume, budget=budget)
    if setup is not None:
        setup(l)
    out = Lifted(l)
    try:
        out.value = l.resolve(body(l))
    except PyError as e:
        out.error = str(e)
        out.value = None
    except Diverges as e:
        out.error = f"no end: {e}"
    except (Unsupported, Budget) as e:
        out.failed = str(e) or type(e).__name__
    except RecursionError:
        out.failed = "recursion"
    except Exception as e:      # an engine limitation never raises an alarm
        out.failed = f"engine: {type(e).__name__}: {e}"
    return out


def raise_conditions(out, sure_only=True):
    cs = []
    for c, name, where in out.l.raises:
        explicit = not name[:1].islower() and ":" not in name and " " not in name
        sure = explicit or name.startswith(SURE)
        if sure or not sure_only:
            cs.append((c, name, where, sure))
    return cs


class Result:
    def __init__(self, ok, why="", witness=None):
        self.ok, self.why, self.witness = ok, why, witness

    def text(self):
        w = ""
        if self.witness:
            items = list(self.witness.items())[:14]
            w = " for " + ", ".join(f"{k}={v:g}" for k, v in items)
        return self.why + w


def both(*rs):
    for r in rs:
        if r.ok is False:
            return r
    for r in rs:
        if r.ok is None:
            return r
    return Result(True, "; ".join(r.why for r in rs[:2]))


def flatten(v):
    v = simplify0(v) if isinstance(v, Arr) else v
    if isinstance(v, np.ndarray):
        v = to_arr(v.tolist()) if v.dtype != object else Arr(v, v.shape)
    return v


def same(got, want, given=True, tol=1e-9, allow_opaque=False, loose=False):
    """Compare a lifted value with the specified value."""
    got, want = flatten(got), flatten(want)
    if isinstance(want, Gate) or isinstance(got, Gate):
        g = got if isinstance(got, Gate) else want
        other = want if g is got else got
        rs = []
        for c, v in ((g.cond, g.a), (T.lnot(g.cond), g.b)):
            cond = T.land(given, c)
            if not feasible(cond):
                continue
            args = (v, other) if g is got else (other, v)
            rs.append(same(*args, cond, tol, allow_opaque, loose))
        return both(*rs) if rs else Result(True, "no feasible case")
    if isinstance(got, Opq) and is_scalar(want):
        got = got.node
    if isinstance(got, Opq) or isinstance(want, Opq):
        if isinstance(got, Opq) and isinstance(want, Opq):
            return verdict(got.node, want.node, given, tol, True)
        return Result(None, "the result could not be lifted")
    if want is None or got is None:
        if want is None and got is None:
            return Result(True, "None")
        if not feasible(given):
            return Result(True, "infeasible")
        return Result(False, f"result is {'None' if got is None else 'a value'} where "
                      f"{'None' if want is None else 'a value'} is specified")
    if isinstance(want, str) or isinstance(got, str):
        ok = isinstance(want, str) and isinstance(got, str) and want == got
        return Result(ok, f"{got!r} vs {want!r}")
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return Result(None, "not a dictionary")
        if set(want) != set(got):
            return Result(False, f"keys {sorted(map(str, got))} instead of "
                          f"{sorted(map(str, want))}")
        return both(*[same(got[k], want[k], given, tol, allow_opaque, loose)
                      for k in want]) if want else Result(True, "")
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(want) != len(got):
            return Result(False, f"{len(got)} items instead of {len(want)}")
        return both(*[same(g, w, given, tol, allow_opaque, loose)
                      for g, w in zip(got, want)]) if want else Result(True, "")
    if isinstance(want, Obj) or isinstance(got, Obj):
        return Result(got is want or None, "objects")
    if isinstance(want, (list, tuple)) and (isinstance(got, Arr) or is_scalar(got)) and \
            any(isinstance(x, (list, tuple)) or isinstance(x, Arr) and x.ndim
                for x in want) and not loose:
        try:
            to_arr(want)
        except Unsupported:
            return Result(False, f"a single value instead of {len(want)}")
    if isinstance(got, Arr) and is_scalar(want) and not loose:
        return Result(None if any(isinstance(d, T.Dim) for d in got.dims) else False,
                      f"array {got.dims} instead of a number")
    try:
        ga, wa = to_arr(got), to_arr(want)
    except Unsupported as e:
        return Result(None, str(e))
    if len(ga.dims) != len(wa.dims):
        if loose and ga.data.size == wa.data.size:
            ga = Arr(ga.data.reshape(wa.data.shape), wa.dims, ga.kind)
        else:
            return Result(False, f"shape {ga.dims} instead of {wa.dims}")
    for x, y in zip(ga.dims, wa.dims):
        if not (x is y or (isinstance(x, int) and isinstance(y, int) and x == y)):
            if isinstance(x, int) and isinstance(y, int):
                return Result(False, f"shape {ga.dims} instead of {wa.dims}")
            if isinstance(x, T.Dim) and isinstance(y, T.Dim):
                r = verdict(T.dimlen(x), T.dimlen(y), given, tol, allow_opaque)
                if r.ok is False:
                    return Result(False, f"length of the result: {r.why}", r.witness)
            return Result(None, f"shape {ga.dims} vs {wa.dims}")
    rs = []
    for i, (x, y) in enumerate(zip(ga.data.flat, wa.data.flat)):
        if x is None or y is None:
            rs.append(Result(x is y or None if isinstance(x, T.Node) else x is y,
                             f"element {i} is {x} instead of {y}"))
            continue
        r = verdict(x, y, given, tol, allow_opaque)
        if r.ok is False and ga.data.size > 1:
            r.why = f"element {np.unravel_index(i, ga.data.shape)}: {r.why}"
            r.why = r.why.replace("np.int64(", "").replace(")", ")", 1)
        rs.append(r)
    return both(*rs) if rs else Result(True, "empty")


def verdict(a, b, given, tol, allow_opaque):
    if isinstance(a, (Opq,)):
        a = a.node
    v = decide.equal(a, b, given, tol, allow_opaque)
    return Result(v.equal, v.why, v.witness)


def feasible(cond):
    """Whether some sampled interpretation satisfies the condition."""
    if T.is_num(cond):
        return bool(cond)
    it = decide.Interp([cond], 1)
    v = it.ev(cond)
    return bool((v if v.dtype == bool else v != 0).any())


def no_raise(out, given=True):
    """The call raises nothing wherever `given` holds."""
    if out.error is not None:
        if out.error.startswith(SURE):
            return Result(False, f"raises {out.error}")
        if out.error.startswith("no end"):
            return Result(False, f"never ends: {out.error[8:]}")
        if out.error == "function always raises":
            names = [n for _, n, _, sure in raise_conditions(out)]
            if names:
                return Result(False, f"always raises {names[-1]}")
        if not raise_conditions(out):
            return Result(None, f"may raise {out.error}")
    for c, name, where, sure in raise_conditions(out, sure_only=True):
        cond = T.land(given, c)
        if T.is_opaque(cond):
            continue
        if feasible(cond):
            return Result(False, f"raises {name} at {where} for an input in the "
                          "documented domain")
    return Result(True, "no raise")


def check(ctx, rule, construct, out, want, given=True, tol=1e-9, allow_opaque=False,
          loose=False, get=None, raises=None):
    """Record the obligation `lifted value == want` (want: value or function)."""
    if out.failed is not None:
        return ctx.oblige(rule, construct, None, "not lifted: " + out.failed)
    res = []
    ig = T.land(*out.l.pc[:out.l.base_pc])
    given = T.land(given, ig)
    if raises is None:
        res.append(no_raise(out, given))
    if out.error is None:
        live = given
        for c, name, where, sure in raise_conditions(out, sure_only=False):
            if not T.is_opaque(c):
                live = T.land(live, T.lnot(c))
        if T.is_num(live) and not live:
            res.append(Result(None, "never returns"))
        else:
            v = get(out.value) if get is not None else out.value
            res.append(same(v, want, live, tol, allow_opaque, loose))
    r = both(*res)
    if r.ok is False and out.taint:
        return ctx.oblige(rule, construct, None, f"{r.why} (but parts were not lifted: "
                          f"{out.taint[0]})")
    return ctx.oblige(rule, construct, r.ok, r.text())


def check_raises(ctx, rule, construct, out, exc=None, given=True):
    """Record the obligation that the call raises wherever `given` holds."""
    if out.failed is not None:
        return ctx.oblige(rule, construct, None, "not lifted: " + out.failed)
    if out.error is not None:
        ends = not out.error.startswith("no end")
        return ctx.oblige(rule, construct, ends, "raises" if ends else "never ends")
    ig = T.land(given, *out.l.pc[:out.l.base_pc])
    missed, known = ig, ig
    for c, name, where, sure in raise_conditions(out, sure_only=False):
        missed = T.land(missed, T.lnot(c))
        if not T.is_opaque(c):
            known = T.land(known, T.lnot(c))
    if not T.is_opaque(known) and not feasible(known):
        return ctx.oblige(rule, construct, True, "")
    if T.is_opaque(missed) or out.taint:
        return ctx.oblige(rule, construct, None, "involves uninterpreted conditions")
    ok = not feasible(missed)
    return ctx.oblige(rule, construct, ok,
                      "" if ok else "an input that must be rejected is accepted")


def check_may_raise(ctx, rule, construct, out):
    """Record the obligation that the call has a rejecting path at all."""
    if out.failed is not None:
        return ctx.oblige(rule, construct, None, "not lifted: " + out.failed)
    ok = out.error is not None or bool(raise_conditions(out, sure_only=False))
    if not ok and out.taint:
        return ctx.oblige(rule, construct, None, "parts were not lifted: "
                          f"{out.taint[0]}")
    return ctx.oblige(rule, construct, ok, "" if ok else "accepted on every path")
