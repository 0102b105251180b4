"""Known text: regular expressions, and documents whose numerals stand for unknowns.

Operations on strings known at analysis time are folded. `Text.numerals` maps positive
numerals of a document to terms, so that values read from it are unknown quantities, whatever
the way the program finds them in the text.
"""
import json
import re
import xml.etree.ElementTree as ET

from . import npmod
from . import term as T
from .interp import PyError
from .value import Arr, Ext, Native, Obj, Unsupported


def known(l):
    if l.cond(l.base_pc) is not True:
        raise Unsupported("conditional write to an element")


class Elem(list):
    """Element of a document, with its children as items."""

    def __init__(self, tag, attrib, text, tail=None, children=()):
        super().__init__(children)
        self.fields = {"tag": tag, "attrib": dict(attrib), "text": text, "tail": tail}

    def native_attr(self, l, attr):
        if attr in self.fields:
            return self.fields[attr]
        f = getattr(self, "m_" + attr, None)
        if f is None:
            raise Unsupported(f"element.{attr}")
        return Native(lambda *a, **k: f(l, *[l.resolve(x) for x in a],
                                        **{n: l.resolve(x) for n, x in k.items()}))

    def native_setattr(self, l, attr, v):
        known(l)
        self.fields[attr] = v

    def m_iter(self, l, tag=None):
        out = [self] if tag in (None, "*", self.fields["tag"]) else []
        for c in self:
            out += c.m_iter(l, tag)
        return out

    def m_itertext(self, l):
        return [e.fields["text"] for e in self.m_iter(l) if e.fields["text"]]

    def m_get(self, l, key, default=None):
        return self.fields["attrib"].get(key, default)

    def m_set(self, l, key, value):
        known(l)
        self.fields["attrib"][key] = value

    def m_keys(self, l):
        return list(self.fields["attrib"])

    def m_items(self, l):
        return list(self.fields["attrib"].items())

    def m_append(self, l, e):
        known(l)
        self.append(e)

    def m_extend(self, l, es):
        known(l)
        self.extend(l.iterate(es))

    def m_insert(self, l, i, e):
        known(l)
        self.insert(i, e)

    def shallow(self):
        f = self.fields
        return Elem(f["tag"], f["attrib"], f["text"], f["tail"], self)

    def deepcopy(self, l, memo):
        r = memo[id(self)] = Elem(*(npmod.deep(l, self.fields[k], memo) for k in (
            "tag", "attrib", "text", "tail")))
        r.extend(npmod.deep(l, e, memo) for e in self)
        return r

    def m_remove(self, l, e):
        known(l)
        self[:] = [c for c in self if c is not e]

    def m_findall(self, l, path, namespaces=None):
        return self.search(path)

    m_iterfind = m_findall

    def m_find(self, l, path, namespaces=None):
        found = self.search(path)
        return found[0] if found else None

    def m_findtext(self, l, path, default=None, namespaces=None):
        found = self.search(path)
        return (found[0].fields["text"] or "") if found else default

    def search(self, path):
        """Elements at a path, by the library's own path language on the tags."""
        back = {}

        def shadow(e):
            s = ET.Element(e.fields["tag"], {k: v for k, v in e.fields["attrib"].items()
                                             if isinstance(v, str)})
            s.text = e.fields["text"] if isinstance(e.fields["text"], str) else None
            back[id(s)] = e
            keep.append(s)
            for c in e:
                s.append(shadow(c))
            return s
        keep = []
        return [back[id(s)] for s in shadow(self).findall(path)]


def plain_element(l, e):
    """The element as one of the library."""
    e = l.resolve(e)
    if not isinstance(e, Elem):
        raise Unsupported("text of an unknown element")
    f = {k: l.resolve(v) for k, v in e.fields.items()}
    at = {k: l.resolve(v) for k, v in f["attrib"].items()}
    for v in at.values():
        if v is None or npmod.is_scalar(v) and not isinstance(v, str):
            raise PyError("TypeError: cannot serialize")
    if not all(isinstance(v, str) for v in [f["tag"], f["text"] or "", f["tail"] or "",
                                            *at, *at.values()]):
        raise Unsupported("text of an unknown element")
    r = ET.Element(f["tag"], at)
    r.text, r.tail = f["text"], f["tail"]
    r.extend(plain_element(l, c) for c in e)
    return r


def element(e):
    return Elem(e.tag, e.attrib, e.text, e.tail, [element(c) for c in e])


def tree_obj(l, root):
    o = Obj("ElementTree", {"getroot": Native(lambda: root)})
    for a in ("iter", "find", "findall", "iterfind", "findtext"):
        def call(*args, a=a, **kw):
            if a != "iter" and args and isinstance(args[0], str) and \
                    args[0].startswith("/"):
                args = ("." + args[0], *args[1:])
            return l.call(root.native_attr(l, a), list(args), kw)
        o.attrs[a] = Native(call)
    return o


class Text:
    """Regular expressions and XML; files are those of a `Files` stand-in, if any."""

    def __init__(self, l, numerals=None, files=None):
        self.l = l
        self.files = files
        l.numerals = {abs(float(k)): v for k, v in (numerals or {}).items()}
        x = l.ext
        for m in ("xml.etree.ElementTree", "xml.etree.cElementTree"):
            x[m + ".parse"] = self.parse
            x[m + ".fromstring"] = x[m + ".XML"] = self.fromstring
            x[m + ".Element"] = self.new_element
            x[m + ".SubElement"] = self.sub_element
            x[m + ".tostring"] = self.tostring
        for f in ("findall", "finditer", "search", "match", "fullmatch", "sub", "split",
                  "subn"):
            x["re." + f] = self.module_fn(f)
        x["re.compile"] = self.compile
        x["json.dumps"], x["json.loads"] = self.dumps, self.loads
        x["json.dump"], x["json.load"] = self.dump, self.load
        x["re.escape"] = lambda l, args, kw: re.escape(args[0])

    def content(self, src):
        l = self.l
        src = l.resolve(src)
        if isinstance(src, Obj) and src.cls == "file":
            src = src.attrs["name"]
        if isinstance(src, Obj) and src.cls == "Path":
            src = src.attrs["_path"]
        if not isinstance(src, str) or self.files is None:
            raise Unsupported("document of unknown content")
        if not self.files.isfile(src):
            raise PyError("FileNotFoundError")
        return self.files.get(src)

    def parse(self, l, args, kwargs):
        return tree_obj(l, self.tree(self.content(args[0] if args else kwargs["source"])))

    def tree(self, text):
        try:
            return element(ET.fromstring(text))
        except ET.ParseError as e:
            raise PyError(f"xml.etree.ElementTree.ParseError: {e}")

    def fromstring(self, l, args, kwargs):
        s = l.resolve(args[0] if args else kwargs["text"])
        if not isinstance(s, str):
            raise Unsupported("document of unknown content")
        return self.tree(s)

    def new_element(self, l, args, kwargs):
        args, kw = [l.resolve(a) for a in args], dict(kwargs)
        tag = args[0] if args else kw.pop("tag")
        attrib = args[1] if len(args) > 1 else l.resolve(kw.pop("attrib", {}))
        if not isinstance(attrib, dict):
            raise Unsupported("attributes of an element")
        return Elem(tag, {**attrib, **kw}, None)

    def sub_element(self, l, args, kwargs):
        e = self.new_element(l, args[1:], kwargs)
        l.resolve(args[0]).m_append(l, e)
        return e

    def tostring(self, l, args, kwargs):
        e = plain_element(l, args[0] if args else kwargs["element"])
        kw = {k: l.resolve(v) for k, v in kwargs.items() if k != "element"}
        if len(args) > 1:
            kw["encoding"] = l.resolve(args[1])
        if kw.get("encoding") != "unicode":
            raise Unsupported("encoded text")
        return ET.tostring(e, **kw)

    # -- json ---------------------------------------------------------------------------
    def plain(self, v):
        """A value as json can write it, unknown numbers by a numeral of their own."""
        v = self.l.resolve(v)
        if isinstance(v, dict):
            return {k: self.plain(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        if v is None or isinstance(v, (str, bool, int, float)):
            return v
        if isinstance(v, T.Node) and not T.is_boolean(v):
            return float(self.l.in_words(v))
        if isinstance(v, Arr):
            raise PyError("TypeError: Object of type ndarray is not JSON serializable")
        raise Unsupported("json of this value")

    def dumps(self, l, args, kwargs):
        obj = l.resolve(args[0] if args else kwargs["obj"])
        kw = {k: l.resolve(v) for k, v in kwargs.items() if k != "obj"}
        if not all(v is None or isinstance(v, (str, int, tuple, list))
                   for v in kw.values()):
            raise Unsupported("options of json.dumps")
        try:
            return json.dumps(self.plain(obj), **kw)
        except (TypeError, ValueError) as e:
            raise PyError(f"{type(e).__name__}: {e}")

    def loads(self, l, args, kwargs):
        s = l.resolve(args[0] if args else kwargs["s"])
        if not isinstance(s, str) or len(args) + len(kwargs) > 1:
            raise Unsupported("json.loads")
        try:
            v = json.loads(s, parse_float=lambda t: _Numeral(t),
                           parse_int=lambda t: _Numeral(t))
        except ValueError as e:
            raise PyError(f"json.JSONDecodeError: {e}")

        def back(v):
            if isinstance(v, dict):
                return {k: back(x) for k, x in v.items()}
            if isinstance(v, list):
                return [back(x) for x in v]
            if isinstance(v, _Numeral):
                n = numeral(l, v)
                return int(v) if isinstance(n, float) and v.lstrip("-").isdigit() else n
            return v
        return back(v)

    def dump(self, l, args, kwargs):
        fp = l.resolve(args[1] if len(args) > 1 else kwargs.pop("fp"))
        txt = self.dumps(l, args[:1], kwargs)
        l.call(fp.attrs["write"], [txt], {})

    def load(self, l, args, kwargs):
        fp = l.resolve(args[0] if args else kwargs["fp"])
        kw = {k: v for k, v in kwargs.items() if k != "fp"}
        return self.loads(l, [l.call(fp.attrs["read"], [], {})], kw)

    # -- regular expressions ------------------------------------------------------------
    def regex(self, pattern, flags=0):
        if isinstance(pattern, Obj) and pattern.cls == "Pattern":
            return pattern.rx
        if not isinstance(pattern, str):
            raise Unsupported("unknown regular expression")
        if isinstance(flags, Ext):
            flags = getattr(re, flags.name.rsplit(".", 1)[-1])
        if not isinstance(flags, (int, re.RegexFlag)):
            raise Unsupported("flags of a regular expression")
        try:
            return re.compile(pattern, flags)
        except re.error as e:
            raise PyError(f"re.error: {e}")

    def compile(self, l, args, kwargs):
        args = [l.resolve(a) for a in args]
        rx = self.regex(*args, **{k: l.resolve(v) for k, v in kwargs.items()})
        o = Obj("Pattern", {"pattern": rx.pattern})
        o.rx = rx
        for f in ("findall", "finditer", "search", "match", "fullmatch", "sub", "split",
                  "subn"):
            o.attrs[f] = Native(lambda *a, f=f, **k: self.apply(
                rx, f, [l.resolve(x) for x in a], k))
        return o

    def module_fn(self, f):
        def call(l, args, kwargs):
            args = [l.resolve(a) for a in args]
            kwargs = {k: l.resolve(v) for k, v in kwargs.items()}
            flags = kwargs.pop("flags", 0)
            return self.apply(self.regex(args[0], flags), f, args[1:], kwargs)
        return call

    def apply(self, rx, f, args, kwargs):
        l = self.l
        names = {"sub": ("repl", "string", "count"), "subn": ("repl", "string", "count"),
                 "split": ("string", "maxsplit")}.get(f, ("string",))
        kw = dict(zip(names, args))
        kw.update({k: l.resolve(v) for k, v in kwargs.items()})
        s = kw.pop("string", None)
        if s is None:
            raise PyError("TypeError: unsupported operand for a regular expression")
        if not isinstance(s, str):
            raise Unsupported("regular expression on unknown text")
        if f in ("sub", "subn"):
            repl = kw.pop("repl")
            fn = repl
            if not isinstance(repl, str):
                def fn(m):
                    v = l.resolve(l.call(repl, [match_obj(m)], {}))
                    if not isinstance(v, str):
                        raise Unsupported(f"replacement by unknown text {v!r}")
                    return v
            return getattr(rx, f)(fn, s, **kw)
        r = getattr(rx, f)(s, **kw)
        if f == "finditer":
            return [match_obj(m) for m in r]
        if f in ("search", "match", "fullmatch"):
            return None if r is None else match_obj(r)
        return r


def match_obj(m):
    o = Obj("Match", {"string": m.string, "lastindex": m.lastindex})
    for f in ("group", "groups", "groupdict", "start", "end", "span"):
        o.attrs[f] = Native(getattr(m, f))
    o.item = m.__getitem__
    return o


class _Numeral(str):
    pass


def numeral(l, s):
    """The number that a string stands for."""
    try:
        v = float(s)
    except ValueError:
        raise PyError("ValueError: could not convert string to float")
    known = getattr(l, "numerals", {})
    if abs(v) in known:
        return known[abs(v)] if v > 0 else T.mul(-1, known[abs(v)])
    return v
