"""Derivative of a term with respect to one of its symbols."""
from . import term as T


def diff(t, x, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, T.Node):
        return 0
    if t is x:
        return 1
    if t in memo:
        return memo[t]
    a = t.args
    d = [diff(u, x, memo) for u in a]
    op = t.op
    if op == "sym":
        r = 0
    elif all(T.is_num(u) and u == 0 for u in d):
        r = 0
    elif op == "add":
        r = T.add(*d)
    elif op == "sub":
        r = T.sub(*d)
    elif op == "neg":
        r = T.app("neg", d[0])
    elif op == "mul":
        r = T.add(T.mul(d[0], a[1]), T.mul(a[0], d[1]))
    elif op == "div":
        r = T.div(T.sub(T.mul(d[0], a[1]), T.mul(a[0], d[1])), T.mul(a[1], a[1]))
    elif op == "sin":
        r = T.mul(T.cos(a[0]), d[0])
    elif op == "cos":
        r = T.app("neg", T.mul(T.sin(a[0]), d[0]))
    elif op == "sqrt":
        r = T.div(d[0], T.mul(2, t))
    elif op == "exp":
        r = T.mul(t, d[0])
    else:
        raise ValueError(f"no derivative of {op}")
    memo[t] = r
    return r
