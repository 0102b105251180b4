"""Light types: what kind of object an expression may evaluate to."""
import ast

IMM = frozenset(
    {"num", "str", "bytes", "none", "bool", "date", "slice", "dtype", "callable",
     "range", "module", "cls"}
)
MAXD = 4


class T:
    __slots__ = ("kinds", "classes", "elem")

    def __init__(self, kinds=(), classes=(), elem=None):
        self.kinds = frozenset(kinds)
        self.classes = frozenset(classes)
        self.elem = elem

    def key(self):
        return (self.kinds, self.classes, self.elem.key() if self.elem else None)

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    @property
    def unknown(self):
        return (not self.kinds and not self.classes) or "any" in self.kinds

    @property
    def immutable(self):
        """Definitely an immutable scalar-like value (cannot be written through)."""
        return bool(self.kinds) and not self.classes and self.kinds <= IMM

    def only(self, *ks):
        return bool(self.kinds) and not self.classes and self.kinds - {"none"} <= set(ks)

    def may(self, k):
        return self.unknown or k in self.kinds

    def join(self, o, d=0):
        if self == o:
            return self
        if self is BOT or (not self.kinds and not self.classes and self is BOT):
            return o
        if o is BOT:
            return self
        if self.unknown or o.unknown:
            return T({"any"}, self.classes | o.classes,
                     _joinel(self.elem, o.elem, d))
        return T(self.kinds | o.kinds, self.classes | o.classes,
                 _joinel(self.elem, o.elem, d))

    def __repr__(self):
        e = f"[{self.elem!r}]" if self.elem else ""
        return "|".join(sorted(self.kinds) + sorted(self.classes)) + e or "?"


def _joinel(a, b, d):
    if a is None:
        return b
    if b is None:
        return a
    if d > MAXD:
        return ANY
    return a.join(b, d + 1)


BOT = T({"bot"})
ANY = T({"any"})
NUM = T({"num"})
STR = T({"str"})
NONE = T({"none"})
BOOL = T({"bool"})
NDA = T({"ndarray"})
CALL = T({"callable"})
MOD = T({"module"})


def obj(name):
    return T((), {name})


def tlist(elem=None):
    return T({"list"}, (), elem)


def ttuple(elem=None):
    return T({"tuple"}, (), elem)


def tdict(elem=None):
    return T({"dict"}, (), elem)


_NAMES = {
    "int": NUM, "float": NUM, "complex": NUM, "bool": BOOL, "str": STR,
    "bytes": T({"bytes"}), "None": NONE, "dict": tdict(), "list": tlist(),
    "tuple": ttuple(), "set": T({"set"}), "slice": T({"slice"}), "Any": ANY,
    "object": ANY, "Callable": CALL, "Hashable": ANY,
    "TextIO": T({"file"}), "Iterable": T({"list", "tuple", "ndarray"}),
    "Sequence": T({"list", "tuple", "ndarray"}),
    "List": tlist(), "Tuple": ttuple(), "Dict": tdict(), "Set": T({"set"}),
    "Type": T({"cls"}), "type": T({"cls"}),
}


def from_annotation(prog, module, node, depth=0):
    """Convert an annotation expression to a light type."""
    if node is None or depth > 8:
        return ANY
    if isinstance(node, ast.Constant):
        if node.value is None:
            return NONE
        if isinstance(node.value, str):
            try:
                sub = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return ANY
            return from_annotation(prog, module, sub, depth + 1)
        return ANY
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return from_annotation(prog, module, node.left, depth + 1).join(
            from_annotation(prog, module, node.right, depth + 1))
    if isinstance(node, ast.Subscript):
        base = ast.unparse(node.value).split(".")[-1]
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        if base in ("Union",):
            out = BOT
            for a in args:
                out = out.join(from_annotation(prog, module, a, depth + 1))
            return out
        if base == "Optional":
            return from_annotation(prog, module, args[0], depth + 1).join(NONE)
        if base == "Literal":
            return STR
        if base in ("Iterable", "Sequence", "Iterator", "Generator", "Collection"):
            return T({"list", "tuple", "ndarray"}, (),
                     from_annotation(prog, module, args[0], depth + 1))
        if base in ("List", "list"):
            return tlist(from_annotation(prog, module, args[0], depth + 1))
        if base in ("Set", "set"):
            return T({"set"}, (), from_annotation(prog, module, args[0], depth + 1))
        if base in ("Tuple", "tuple"):
            out = BOT
            for a in args:
                if isinstance(a, ast.Constant) and a.value is Ellipsis:
                    continue
                out = out.join(from_annotation(prog, module, a, depth + 1))
            return ttuple(out)
        if base in ("Dict", "dict"):
            return tdict(from_annotation(prog, module, args[-1], depth + 1))
        if base in ("Callable",):
            return CALL
        if base in ("Type", "type"):
            return T({"cls"})
        return ANY
    if isinstance(node, ast.Name):
        if node.id in _NAMES and prog.lookup_in_module(module, node.id) is None \
                or node.id in ("Any", "Callable", "Iterable"):
            return _NAMES.get(node.id, ANY)
        t = prog.lookup_in_module(module, node.id)
        if t is not None and hasattr(t, "methods"):
            return obj(t.name)
        if isinstance(t, tuple) and t[0] == "global":
            return from_annotation(prog, t[1], t[1].globals[t[2]], depth + 1)
        if isinstance(t, str):
            return _dotted(t)
        if node.id in _NAMES:
            return _NAMES[node.id]
        cs = prog.class_by_name.get(node.id)
        if cs:
            return obj(node.id)
        return ANY
    if isinstance(node, ast.Attribute):
        t = prog.resolve_node(module, node)
        if t is not None and hasattr(t, "methods"):
            return obj(t.name)
        if isinstance(t, str):
            return _dotted(t)
        return _dotted(ast.unparse(node))
    return ANY


def _dotted(s):
    last = s.split(".")[-1]
    if s.startswith("typing."):
        return _NAMES.get(last, ANY)
    if last in ("ndarray",):
        return NDA
    if last in ("datetime", "timedelta", "date"):
        return T({"date"})
    if last in ("dtype",):
        return T({"dtype"})
    if last in ("ndarray", "spmatrix"):
        return NDA
    return ANY
