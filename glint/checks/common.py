"""Helpers shared by the effect-based checks."""
import os

from .. import effects, model

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__)))), "fixtures")

DUNDER = {"__init__", "__call__", "__getitem__", "__setitem__", "__add__", "__eq__",
          "__iter__", "__len__", "__repr__", "__sub__", "__mul__", "__contains__"}


def is_public(f):
    if f.cls is not None and f.cls.name.startswith("_"):
        return False
    return not f.name.startswith("_") or f.name in DUNDER


def public_funcs(prog):
    return [f for f in prog.funcs if is_public(f)]


def fixture_engine(name):
    prog = model.Program(os.path.join(FIX, name, "src"))
    return prog, effects.Engine(prog).run()


def param_muts(eng, f):
    """Non-cache writes into a parameter other than the receiver."""
    s = eng.sums[f]
    out = {}
    for mu in s.muts.values():
        root = mu.loc.root
        if root[0] != "p" or root[1] == f.self_name() or mu.lazy:
            continue
        if is_cache_write(eng, mu):
            continue
        out.setdefault(root[1], []).append(mu)
    return out


_state_attrs = {}


def state_attrs(prog, cls):
    """Attributes given a value other than None by a constructor (or class body)."""
    key = (id(prog), cls.qualname)
    if key in _state_attrs:
        return _state_attrs[key]
    import ast
    out = set()
    for c in cls.mro():
        fs = [c.methods.get("__init__")] + list(c.setters.values())
        for f in fs:
            if f is None:
                continue
            for n in ast.walk(f.node):
                tg = n.targets if isinstance(n, ast.Assign) else (
                    [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else [])
                val = getattr(n, "value", None)
                todo = [(t, val) for t in tg]
                while todo:
                    t, v = todo.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        todo += [(x, None) for x in t.elts]
                    elif isinstance(t, ast.Attribute):
                        if not (isinstance(v, ast.Constant) and v.value is None):
                            out.add(t.attr)
    _state_attrs[key] = out
    return out


def is_cache_write(eng, mu):
    """Rebinding of a private attribute that no constructor gives a value.

    Such an attribute is a memo: it is not part of the state the object was built with.
    """
    step = str(mu.step)
    if not step.startswith("_") or step.startswith("__"):
        return False
    cls = mu.func.cls
    if cls is None:
        return False
    for m in eng.prog.modules.values():
        for c in m.classes.values():
            if step in state_attrs(eng.prog, c):
                return False
    return True


def unclear(eng, f, mu):
    """Whether a write is reached through copies made under a condition that the
    analysis cannot relate to the write, in the functions on the way or their callees."""
    names = {v[0] for v in mu.via} | {mu.func.short, f.short}
    fs = [g for g in eng.prog.funcs if g.short in names]
    return any(eng.sums[h].unclear for g in fs for h in (g, *eng.sums[g].calls)
               if h in eng.sums)


def verdict(eng, f, muts):
    """Holds without writes, fails with a clear one, else undecided."""
    if not muts:
        return True
    return None if all(unclear(eng, f, mu) for mu in muts) else False
