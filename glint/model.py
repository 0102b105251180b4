"""Program model of /repo's current source: modules, classes, functions, imports.

Everything here is read from the syntax trees of the working tree; nothing of the
repository is imported or executed.
"""
import ast
import os
import symtable

REPO = os.environ.get("GLINT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "glimpse"


class AnalysisError(Exception):
    """The analysis itself cannot proceed (anchor vanished, file missing...)."""


class Func:
    """A function or method definition."""

    def __init__(self, module, node, cls=None, parent=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        self.name = node.name
        self.kind = "function" if cls is None else "method"
        self.is_property = False
        self.is_setter = False
        decs = []
        for d in node.decorator_list:
            s = ast.unparse(d)
            decs.append(s)
            if s == "property" or s.endswith("cached_property"):
                self.is_property = True
            elif s.endswith(".setter"):
                self.is_setter = True
            elif s == "staticmethod":
                self.kind = "static"
            elif s == "classmethod":
                self.kind = "class"
        self.decorators = decs
        self.is_abstract = any("abstract" in d for d in decs)

    @property
    def qualname(self):
        parts = [self.module.name]
        if self.cls is not None:
            parts.append(self.cls.name)
        if self.parent is not None:
            parts.append(self.parent.name)
        parts.append(self.name + (".setter" if self.is_setter else ""))
        return ".".join(parts)

    @property
    def short(self):
        return self.qualname.split(PKG + ".", 1)[-1]

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def kwonly(self):
        return [p.arg for p in self.node.args.kwonlyargs]

    def vararg(self):
        return self.node.args.vararg.arg if self.node.args.vararg else None

    def kwarg(self):
        return self.node.args.kwarg.arg if self.node.args.kwarg else None

    def self_name(self):
        if self.cls is not None and self.kind in ("method", "class"):
            ps = self.params()
            return ps[0] if ps else None
        return None

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qualname}>"


class Class:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}   # name -> Func (incl. property getters)
        self.setters = {}   # name -> Func
        self.attrs = {}     # class-level assignments name -> value node
        self.bases = []     # resolved later
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, st, cls=self)
                if f.is_setter:
                    self.setters[f.name] = f
                else:
                    self.methods[f.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    @property
    def qualname(self):
        return self.module.name + "." + self.name

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo.extend(c.bases)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def property_names(self):
        out = set()
        for c in self.mro():
            out |= {n for n, f in c.methods.items() if f.is_property}
        return out

    def __repr__(self):
        return f"<Class {self.qualname}>"


class Module:
    def __init__(self, name, path, rel, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.source = source
        self.tree = ast.parse(source, path)
        self.functions = {}
        self.classes = {}
        self.imports = {}      # local name -> dotted target
        self.globals = {}      # name -> value node
        self.is_pkg = os.path.basename(path) == "__init__.py"


class Program:
    def __init__(self, src=None):
        src = src or SRC
        self.src = src
        self.modules = {}
        self.funcs = []        # every top-level function, method (not nested)
        base = os.path.join(src, PKG)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory missing: {base}")
        for d, _, files in sorted(os.walk(base)):
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(d, fn)
                relmod = os.path.relpath(path, src)[:-3].replace(os.sep, ".")
                if relmod.endswith(".__init__"):
                    relmod = relmod[: -len(".__init__")]
                with open(path, encoding="utf-8") as fh:
                    source = fh.read()
                rel = os.path.relpath(path, os.path.dirname(src))
                self.modules[relmod] = Module(relmod, path, rel, source)
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    t = self.resolve_node(m, b)
                    if isinstance(t, Class):
                        c.bases.append(t)
        self.class_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.class_by_name.setdefault(c.name, []).append(c)
        self.methods_by_name = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n in list(c.methods) + list(c.setters):
                    self.methods_by_name.setdefault(n, set()).add(c)

    # -- indexing --------------------------------------------------------
    def _index(self, m):
        pkg = m.name if m.is_pkg else m.name.rsplit(".", 1)[0]

        def do_import(st):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                if st.level:
                    parts = pkg.split(".")
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts)
                    if st.module:
                        base += "." + st.module
                else:
                    base = st.module
                for a in st.names:
                    m.imports[a.asname or a.name] = base + "." + a.name

        def walk_body(body):
            for st in body:
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    do_import(st)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, st)
                    m.functions[f.name] = f
                    self.funcs.append(f)
                elif isinstance(st, ast.ClassDef):
                    c = Class(m, st)
                    m.classes[c.name] = c
                    self.funcs.extend(c.methods.values())
                    self.funcs.extend(c.setters.values())
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = st.value
                elif isinstance(st, ast.AnnAssign):
                    if isinstance(st.target, ast.Name):
                        m.globals[st.target.id] = st.value
                elif isinstance(st, (ast.If, ast.Try)):
                    walk_body(st.body)
                    walk_body(getattr(st, "orelse", []))
                    for h in getattr(st, "handlers", []):
                        walk_body(h.body)
                    walk_body(getattr(st, "finalbody", []))

        walk_body(m.tree.body)

    # -- resolution ------------------------------------------------------
    def lookup_dotted(self, dotted):
        """Resolve an absolute dotted name to Module/Func/Class or an external str."""
        if dotted in self.modules:
            return self.modules[dotted]
        if not (dotted == PKG or dotted.startswith(PKG + ".")):
            return dotted
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            base = self.lookup_dotted(head)
            if isinstance(base, Module):
                return self.lookup_in_module(base, tail)
            if isinstance(base, Class):
                return base.find(tail)
        return None

    def lookup_in_module(self, m, name):
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals:
            return ("global", m, name)
        if name in m.imports:
            return self.lookup_dotted(m.imports[name])
        sub = m.name + "." + name
        if sub in self.modules:
            return self.modules[sub]
        return None

    def resolve_name(self, m, name):
        return self.lookup_in_module(m, name)

    def resolve_node(self, m, node):
        """Resolve Name/Attribute node to Module/Func/Class/external dotted str."""
        if isinstance(node, ast.Name):
            return self.lookup_in_module(m, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_node(m, node.value)
            if isinstance(base, Module):
                return self.lookup_in_module(base, node.attr)
            if isinstance(base, Class):
                return base.find(node.attr)
            if isinstance(base, str):
                return base + "." + node.attr
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_node(m, ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    # -- anchors ---------------------------------------------------------
    def cls(self, name, modname=None):
        cs = self.class_by_name.get(name, [])
        if modname:
            m = self.modules.get(PKG + "." + modname)
            t = m and self.lookup_in_module(m, name)
            cs = [t] if t in cs else []
        if not cs:
            raise AnalysisError(f"public class vanished: {name}")
        return cs[0]

    def method(self, cname, mname):
        f = self.cls(cname).find(mname)
        if f is None:
            raise AnalysisError(f"public method vanished: {cname}.{mname}")
        return f

    def func(self, modname, fname):
        m = self.modules.get(PKG + "." + modname)
        if m is None:
            raise AnalysisError(f"module vanished: {modname}")
        f = m.functions.get(fname)
        if f is None:
            t = self.lookup_in_module(m, fname)
            if isinstance(t, Func):
                return t
            raise AnalysisError(f"public function vanished: {modname}.{fname}")
        return f


def local_names(node):
    """Names bound in a function body (assigned, for-targets, with, etc.)."""
    out = set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(p.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_AsyncFunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for al in n.names:
                out.add(al.asname or al.name.split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    v = V()
    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body:
        v.visit(st)
    glob = set()
    for st in ast.walk(node):
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            glob |= set(st.names)
    return out - glob
