"""Hash-consed terms of the gated value graph.

A term denotes a number (or truth value) as a function of named inputs.  Inputs and terms
may vary along *symbolic dimensions* (`Dim`): the rows of an array of any length.  A term
that varies along `n` stands for its value at every row, so one term covers arrays of
every length.
"""
import math

_table = {}
_counter = [0]


class Dim:
    """A symbolic array dimension; `base`/`mask` describe a masked subset of rows."""
    __slots__ = ("name", "base", "mask", "length")
    _all = {}

    def __init__(self, name, base=None, mask=None, length=None):
        self.name, self.base, self.mask = name, base, mask
        self.length = length

    @property
    def root(self):
        d = self
        while d.base is not None:
            d = d.base
        return d

    def full_mask(self):
        """Condition that a row of the root dimension belongs to this dimension."""
        out, d = True, self
        while d.base is not None:
            out = land(out, d.mask)
            d = d.base
        return out

    def __repr__(self):
        return self.name


def dim(name):
    if name not in Dim._all:
        Dim._all[name] = Dim(name)
    return Dim._all[name]


def dim_len(n):
    """The dimension whose length is the term n."""
    key = ("len", n)
    if key not in Dim._all:
        Dim._all[key] = Dim(f"len:{n.id}", length=n)
    return Dim._all[key]


def subdim(base, mask):
    key = (base, mask)
    if key not in Dim._all:
        _counter[0] += 1
        Dim._all[key] = Dim(f"{base.name}[{_counter[0]}]", base, mask)
    return Dim._all[key]


class Node:
    __slots__ = ("op", "args", "attr", "dims", "opaque", "id", "__weakref__")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # spec-side operators
    def __add__(self, o):
        return app("add", self, o)

    def __radd__(self, o):
        return app("add", o, self)

    def __sub__(self, o):
        return app("sub", self, o)

    def __rsub__(self, o):
        return app("sub", o, self)

    def __mul__(self, o):
        return app("mul", self, o)

    def __rmul__(self, o):
        return app("mul", o, self)

    def __truediv__(self, o):
        return app("div", self, o)

    def __rtruediv__(self, o):
        return app("div", o, self)

    def __pow__(self, o):
        return app("pow", self, o)

    def __neg__(self):
        return app("neg", self)

    def __lt__(self, o):
        return app("lt", self, o)

    def __le__(self, o):
        return app("le", self, o)

    def __gt__(self, o):
        return app("lt", o, self)

    def __ge__(self, o):
        return app("le", o, self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic term")

    def __repr__(self):
        return show(self)


def show(n, depth=4):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == "sym":
        return str(n.attr[0])
    if depth == 0:
        return "..."
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<",
           "le": "<=", "eq": "==", "ne": "!=", "and": "&", "or": "|"}
    if n.op in inf and len(n.args) == 2:
        return f"({show(n.args[0], depth - 1)} {inf[n.op]} {show(n.args[1], depth - 1)})"
    a = ", ".join(show(x, depth - 1) for x in n.args)
    at = f"[{n.attr}]" if n.attr is not None and n.op != "call" else ""
    nm = n.attr if n.op == "call" else n.op
    return f"{nm}{at if n.op != 'call' else ''}({a})"


def _mk(op, args, attr, dims, opaque):
    key = (op, tuple((type(a).__name__, a) if not isinstance(a, Node) else a.id
                     for a in args), attr)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.attr, n.dims, n.opaque = op, tuple(args), attr, dims, opaque
        n.id = len(_table) + 1
        _table[key] = n
    return n


def sym(name, dims=(), domain="real"):
    return _mk("sym", (), (name, tuple(d.root for d in dims), domain),
               frozenset(d.root for d in dims), False)


def is_num(x):
    return isinstance(x, (int, float, bool))


def dims_of(x):
    return x.dims if isinstance(x, Node) else frozenset()


def is_opaque(x):
    return isinstance(x, Node) and x.opaque


def _lnan(x):
    return isinstance(x, float) and math.isnan(x)


COMM = {"add", "mul", "and", "or", "eq", "ne", "min2", "max2"}

_fold = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "neg": lambda a: -a, "abs": abs,
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
    "min2": lambda a, b: b if _lnan(b) else min(a, b),
    "max2": lambda a, b: b if _lnan(b) else max(a, b),
    "and": lambda a, b: bool(a) and bool(b), "or": lambda a, b: bool(a) or bool(b),
    "not": lambda a: not a, "isnan": lambda a: isinstance(a, float) and math.isnan(a),
    "isfinite": lambda a: math.isfinite(a),
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": math.sqrt,
    "exp": math.exp, "floor": lambda a: math.floor(a) if math.isfinite(a) else a,
    "ceil": lambda a: math.ceil(a) if math.isfinite(a) else a,
    "trunc": lambda a: int(a) if math.isfinite(a) else a,
    "sign": lambda a: (a > 0) - (a < 0),
    "arctan2": math.atan2, "rint": lambda a: round(a) if math.isfinite(a) else a,
    "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "log": math.log,
    "log2": math.log2, "log10": math.log10,
}


def app(op, *args, attr=None):
    """Apply an interpreted operation with folding and light simplification."""
    args = list(args)
    if all(is_num(a) for a in args) and attr is None:
        try:
            if op == "div":
                if args[1] != 0:
                    return args[0] / args[1]
                if args[0] == 0 or _lnan(args[0]):
                    return float("nan")
                return math.copysign(float("inf"), args[0])
            if op == "pow":
                if args[0] == 0 and args[1] < 0:
                    return float("inf")
                r = args[0] ** args[1]
                if isinstance(r, complex):
                    return float("nan")
                return r
            if op == "ite":
                return args[1] if args[0] else args[2]
            if op == "bool":
                return bool(args[0])
            if op in _fold:
                return _fold[op](*args)
        except (OverflowError, ValueError, ZeroDivisionError):
            return float("nan")
    if None in args and not (op == "ite" and is_num(args[0])):
        raise TypeError("None in a term")
    if op == "add":
        if is_num(args[0]) and args[0] == 0 and not isinstance(args[0], bool):
            return args[1]
        if is_num(args[1]) and args[1] == 0:
            return args[0]
    elif op == "sub":
        if is_num(args[1]) and args[1] == 0:
            return args[0]
    elif op == "mul":
        for i in (0, 1):
            if is_num(args[i]) and args[i] == 1:
                return args[1 - i]
            if is_num(args[i]) and args[i] == -1:
                return app("neg", args[1 - i])
    elif op == "div":
        if is_num(args[1]) and args[1] == 1:
            return args[0]
    elif op == "pow":
        if is_num(args[1]) and args[1] == 1:
            return args[0]
    elif op == "neg":
        if isinstance(args[0], Node) and args[0].op == "neg":
            return args[0].args[0]
    elif op == "not":
        a = args[0]
        if isinstance(a, Node):
            if a.op == "not":
                return a.args[0]
            if a.op == "eq":
                return app("ne", *a.args)
            if a.op == "ne":
                return app("eq", *a.args)
    elif op in ("and", "or"):
        absorbing = op == "or"
        out = []
        for a in args:
            if is_num(a):
                if bool(a) == absorbing:
                    return absorbing
                continue
            if a not in out:
                out.append(a)
        if not out:
            return not absorbing
        if len(out) == 1:
            return out[0]
        args = out
    elif op == "ite":
        c, a, b = args
        if is_num(c):
            return a if c else b
        if a is b or (is_num(a) and is_num(b) and type(a) is type(b) and
                      (a == b or (_lnan(a) and _lnan(b)))):
            return a
        if isinstance(c, Node) and c.op == "not":
            return app("ite", c.args[0], b, a)
        if isinstance(a, Node) and a.op == "ite" and a.args[0] is c:
            return app("ite", c, a.args[1], b)
        if isinstance(b, Node) and b.op == "ite" and b.args[0] is c:
            return app("ite", c, a, b.args[2])
        if a is True and b is False:
            return c
        if a is False and b is True:
            return app("not", c)
    elif op == "eq":
        if args[0] is args[1]:
            return True
    elif op == "trunc" or op == "floor" or op == "rint":
        a = args[0]
        if isinstance(a, Node) and a.op in ("trunc", "floor", "ceil", "rint", "sign",
                                            "dimlen"):
            return a
        if isinstance(a, Node) and a.op == "sym" and "int" in str(a.attr[2]):
            return a
        if isinstance(a, int):
            return a
    elif op == "bool":
        a = args[0]
        if isinstance(a, Node) and is_boolean(a):
            return a
        return app("ne", a, 0)
    if op in COMM and len(args) == 2:
        args.sort(key=lambda a: a.id if isinstance(a, Node) else -1)
    d = frozenset()
    opq = False
    for a in args:
        if isinstance(a, Node):
            d |= a.dims
            opq = opq or a.opaque
    return _mk(op, args, attr, d, opq)


BOOLOPS = {"lt", "le", "eq", "ne", "and", "or", "not", "isnan", "isfinite", "rany",
           "rall"}


def is_boolean(n):
    if isinstance(n, bool):
        return True
    if isinstance(n, Node):
        if n.op in BOOLOPS:
            return True
        if n.op == "sym":
            return n.attr[2] == "bool"
        if n.op == "ite":
            return is_boolean(n.args[1]) and is_boolean(n.args[2])
    return False


def reduce(op, d, body, extra=None):
    """Reduction of `body` along symbolic dimension `d` (masked rows only)."""
    m = d.full_mask()
    dims = (dims_of(body) | dims_of(m)) - {d.root}
    if op in ("rcumsum", "rrank"):
        dims = dims | {d.root}
    return _mk(op, (body, m), (d.root, extra), dims,
               is_opaque(body) or is_opaque(m))


def dimlen(d):
    if d.length is not None:
        return d.length
    if d.base is None:
        return _mk("dimlen", (), d, frozenset(), False)
    return reduce("rsum", d, 1)


def rowindex(d):
    """0..len-1 along `d`."""
    if d.base is not None:
        return sub(reduce("rcumsum", d, 1), 1)
    return _mk("rowindex", (), d.root, frozenset({d.root}), False)


def at(d, body, idx):
    """Row `idx` of `body` along d."""
    if not isinstance(body, Node) or d.root not in body.dims:
        return body
    return _mk("at", (body, idx, d.full_mask()), d.root,
               (body.dims | dims_of(d.full_mask())) - {d.root} | dims_of(idx),
               body.opaque or is_opaque(idx))


def opaque(name, args=(), dims=frozenset()):
    """Result of an operation that is not interpreted (congruent in its arguments)."""
    for a in args:
        dims = dims | dims_of(a)
    return _mk("call", tuple(args), name, frozenset(dims), True)


def havoc(tag):
    _counter[0] += 1
    return _mk("call", (), f"?{tag}#{_counter[0]}", frozenset(), True)


def add(a, b):
    return app("add", a, b)


def sub(a, b):
    return app("sub", a, b)


def mul(a, b):
    return app("mul", a, b)


def div(a, b):
    return app("div", a, b)


def land(*xs):
    out = True
    for x in xs:
        out = app("and", out, x)
    return out


def lor(*xs):
    out = False
    for x in xs:
        out = app("or", out, x)
    return out


def lnot(x):
    return app("not", x)


def ite(c, a, b):
    return app("ite", c, a, b)


def sin(x):
    return app("sin", x)


def cos(x):
    return app("cos", x)


def sqrt(x):
    return app("sqrt", x)


def rank(xs, k):
    """The k-th smallest of several terms."""
    if all(is_num(x) for x in xs):
        return sorted(xs)[k]
    if len(xs) == 1:
        return xs[0]
    xs = sorted(xs, key=lambda a: a.id if isinstance(a, Node) else -1)
    d, opq = frozenset(), False
    for a in xs:
        if isinstance(a, Node):
            d |= a.dims
            opq = opq or a.opaque
    return _mk("rank", xs, k, d, opq)


def median(xs):
    n = len(xs)
    if n % 2:
        return rank(xs, n // 2)
    return div(add(rank(xs, n // 2 - 1), rank(xs, n // 2)), 2)


def conjuncts(c):
    if isinstance(c, Node) and c.op == "and":
        out = []
        for a in c.args:
            out += conjuncts(a)
        return out
    if isinstance(c, Node) and c.op == "not" and isinstance(c.args[0], Node) and \
            c.args[0].op == "or":
        out = []
        for a in c.args[0].args:
            out += conjuncts(lnot(a))
        return out
    return [c]


def walk(n, seen=None):
    """All distinct sub-terms."""
    seen = set() if seen is None else seen
    todo = [n]
    while todo:
        x = todo.pop()
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        todo.extend(x.args)
    return seen


def symbols(*ns):
    seen = set()
    for n in ns:
        walk(n, seen)
    return {n for n in seen if n.op == "sym"}
