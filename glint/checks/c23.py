"""C23: vertices of SVG elements, read and written."""
from ..spec import svg as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import textmod
from ..vg import value as V
from ..vg import world
from .c06 import lift

neg = lambda v: T.mul(-1, v)  # noqa: E731


def syms(p, n, dom=None):
    return [T.sym(f"{p}{i}", (), *([dom] if dom else [])) for i in range(n)]


def run(ctx):
    ctx.rule("R1-shapes", "vertices of each element are those that the SVG "
             "recommendation defines for its attributes")
    ctx.rule("R2-transform", "transform functions apply in the order written")
    ctx.rule("R3-image", "vertices are relative to the corner of the last image, in its "
             "pixels or those of the size asked for, under the names of their elements")
    ctx.rule("R4-write", "vertices written to elements and files are read back")
    paths(ctx)
    shapes(ctx)
    transforms(ctx)
    documents(ctx)
    elements(ctx)
    files(ctx)
    ctx.need("R1-shapes", 3)
    ctx.need("R3-image", 3)
    ctx.assumptions += ["numerals in texts stand for unknown numbers", "the element tree "
                        "and regular expression modules as documented"]


def begin(l, files=None):
    fs = world.Files(l, dict(files or {}))
    textmod.Text(l, {}, fs)
    return fs


def words(l):
    def w(v):
        if isinstance(v, T.Node):
            n = neg(v)
            if getattr(n, "op", None) == "sym" or n in SYMS:
                return "-" + str(l.in_words(n))
        return str(l.in_words(v))
    return w


SYMS = set()


def points_of(ctx, l, tag, **attrs):
    cls = V.ClassRef(ctx.prog.cls("Points", "svg"))
    return l.call(l.getattr(cls, "from_element"), [tag], attrs)


def xy(l, p):
    return l.getattr(p, "xy")


# -- shapes -------------------------------------------------------------------------------
s = syms("v", 16)
SYMS.update(s)
PATHS = {
    "lines": [("M", s[:2]), ("L", s[2:6])],
    "moves": [("M", s[:6]), ("M", s[6:8]), ("L", s[8:10])],
    "relative": [("m", s[:2]), ("l", s[2:6]), ("m", s[6:8]), ("l", s[8:10])],
    "relative moves": [("m", s[:6]), ("L", s[6:8]), ("m", s[8:12])],
    "horizontal": [("M", s[:2]), ("H", s[2:4]), ("h", s[4:6]), ("L", s[6:8]), ("h", s[8:9])],
    "vertical": [("M", s[:2]), ("V", s[2:4]), ("v", s[4:6]), ("l", s[6:8]), ("V", s[8:9])],
    "across after lines": [("M", s[:2]), ("L", s[2:6]), ("H", s[6:7]), ("V", s[7:8]),
                           ("l", s[8:10]), ("h", s[10:11]), ("v", s[11:12])],
    "curves": [("M", s[:2]), ("C", s[2:14])],
    "relative curves": [("M", s[:2]), ("c", s[2:14])],
    "smooth curves": [("M", s[:2]), ("S", s[2:6]), ("s", s[6:14])],
    "smooth relative": [("m", s[:2]), ("s", s[2:6]), ("S", s[6:14])],
    "quadratic": [("M", s[:2]), ("Q", s[2:10]), ("q", s[10:14])],
    "quadratic relative": [("M", s[:2]), ("q", s[2:10]), ("Q", s[10:14])],
    "smooth quadratic": [("M", s[:2]), ("T", s[2:6]), ("t", s[6:10])],
    "arcs": [("M", s[:2]), ("A", [*s[2:5], 0, 1, *s[5:7], *s[7:10], 1, 1, *s[10:12]])],
    "relative arcs": [("M", s[:2]), ("a", [*s[2:5], 0, 1, *s[5:7], *s[7:10], 1, 1,
                                           *s[10:12]])],
    "closed": [("M", s[:2]), ("L", s[2:6]), ("Z", [])],
    "closed, lower case": [("m", s[:2]), ("l", s[2:6]), ("z", [])],
    "after closed": [("M", s[:2]), ("L", s[2:4]), ("z", []), ("l", s[4:6])],
    "several closed": [("M", s[:2]), ("L", s[2:6]), ("Z", []), ("M", s[6:8]),
                       ("L", s[8:12]), ("Z", [])],
    "several relative closed": [("m", s[:2]), ("l", s[2:6]), ("z", []), ("m", s[6:8]),
                                ("l", s[8:12]), ("z", []), ("l", s[12:14])],
    "negative": [("M", [neg(s[0]), s[1]]), ("l", [neg(s[2]), neg(s[3]), s[4], neg(s[5])]),
                 ("h", [neg(s[6])]), ("V", [neg(s[7])])],
    "known": [("M", [0, 12]), ("L", [-3, 0.5, -0.25, 1e-05]), ("h", [2.5e+20]),
              ("v", [-7e-3])],
    "point": [("M", s[:2])],
}
NUMERALS = {"decimals": ("M .5.25-.5-1.5 L1e1.5 +2,+.75 3.25 1E-2-2e+1 , 4",
                         [(0.5, 0.25), (-0.5, -1.5), (10.0, 0.5), (2, 0.75), (3.25, 0.01),
                          (-20.0, 4)]),
            "integers": ("m10-20 005 7h+3V-0", [(10, -20), (15, -13), (18, -13), (18, 0)])}


def paths(ctx):
    r = "R1-shapes"
    for nm, commands in PATHS.items():
        for style in ("spaced", "lines", "compact"):
            def body(l):
                begin(l)
                d = S.write(words(l), commands, style)
                return xy(l, points_of(ctx, l, "path", d=d))
            C.check(ctx, r, f"svg.Points.from_element[path,{nm},{style}]",
                    lift(ctx, body), S.path(commands))
    for nm, (d, want) in NUMERALS.items():
        C.check(ctx, r, f"svg.Points.from_element[path,{nm}]", lift(
            ctx, lambda l: (begin(l), xy(l, points_of(ctx, l, "path", d=d)))[1]), want)
    for nm, kw in (("empty", {"d": ""}), ("none", {}), ("blank", {"d": " \n"})):
        C.check(ctx, r, f"svg.Points.from_element[path,{nm}]", lift(
            ctx, lambda l: (begin(l), xy(l, points_of(ctx, l, "path", **kw)))[1]), [])
    for d in ("M 1,2 X 3,4", "M 1,2 r 1 2"):
        C.check_raises(ctx, r, f"svg.Points.from_element[path,{d.split()[2]}]", lift(
            ctx, lambda l: (begin(l), points_of(ctx, l, "path", d=d))))


def shapes(ctx):
    r = "R1-shapes"
    a, b, c, d, e, f = s[:6]
    size = syms("size", 2, "pos")
    SYMS.update(size)
    pts = [(a, 1), (b, c), (neg(d), 2)]
    cases = [
        ("polyline", {"points": pts}, pts), ("polyline", {}, []),
        ("polyline, odd separators", {"points": (pts, " , \n")}, pts),
        ("polygon", {"points": pts}, [*pts, pts[0]]), ("polygon", {}, []),
        ("polygon, closed", {"points": [*pts, pts[0]]}, [*pts, pts[0]]),
        ("polygon, point", {"points": pts[:1]}, pts[:1]),
        ("polygon, ends level", {"points": [(a, 1), (b, 3), (a, 2)]},
         [(a, 1), (b, 3), (a, 2), (a, 1)]),
        ("line", {"x1": a, "y1": b, "x2": c, "y2": d}, [(a, b), (c, d)]),
        ("line, to", {"x2": c, "y1": d}, [(0, d), (c, 0)]),
        ("circle", {"cx": a, "cy": neg(b), "r": c}, [(a, neg(b))]),
        ("circle, none", {"cy": b, "id": "7"}, [(0, b)]),
        ("rect", {"x": a, "y": b, "width": size[0], "height": size[1]},
         S.rect(a, b, *size)),
        ("rect, none", {"width": size[0], "height": 3, "rx": "1"},
         S.rect(0, 0, size[0], 3)),
        ("image", {"x": a, "y": b, "width": size[0], "height": size[1], "href": "c.jpg"},
         S.rect(a, b, *size)),
        ("image, y", {"y": b, "width": size[0], "height": size[1]},
         S.rect(0, b, *size)),
        ("svg", {"viewBox": (a, neg(b), *size)}, S.rect(a, neg(b), *size)),
        ("svg, none", {"width": "10"}, []),
    ]
    for nm, attrs, want in cases:
        def body(l):
            begin(l)
            return xy(l, points_of(ctx, l, nm.split(",")[0], **text(l, attrs)))
        C.check(ctx, r, f"svg.Points.from_element[{nm}]", lift(ctx, body), want)
    for tag in ("magic", "g", "ellipse"):
        C.check_raises(ctx, r, f"svg.Points.from_element[{tag}]", lift(
            ctx, lambda l: (begin(l), points_of(ctx, l, tag, cx="1", cy="2"))))


def text(l, attrs):
    w = words(l)
    out = {}
    for k, v in attrs.items():
        sep = ","
        if k == "points":
            if isinstance(v, tuple):
                v, sep = v
            v = " ".join(w(x) + sep + w(y) for x, y in v)
        elif k == "viewBox":
            v = " ".join(map(w, v))
        out[k] = v if isinstance(v, str) else w(v)
    return out


# -- transforms ---------------------------------------------------------------------------
t = syms("t", 12)
SYMS.update(t)
STEPS = {
    "translate": [("translate", t[:2])], "translate x": [("translate", t[:1])],
    "scale": [("scale", t[:2])], "scale both": [("scale", t[:1])],
    "matrix": [("matrix", t[:6])],
    "none": [],
    "flat": [("scale", [t[0], 0])], "up": [("translate", [0, t[1]])],
    "two": [("translate", t[:2]), ("scale", t[2:4])],
    "other two": [("scale", t[:1]), ("translate", [neg(t[1]), neg(t[2])])],
    "three": [("matrix", t[:6]), ("translate", t[6:7]), ("scale", t[7:9])],
    "twice": [("translate", t[:2]), ("matrix", t[2:8]), ("translate", t[8:10])],
}


def written(w, steps, style):
    open_, sep, close, between = {
        "commas": ("(", ",", ")", ""), "spaces": ("( ", "  ", " )", " "),
        "both": (" (", " , ", ")", ", "), "compact": ("(", None, ")", "")}[style]
    return between.join(f + open_ + (S.joined([w(x) for x in a]) if sep is None else
                                     sep.join(w(x) for x in a)) + close
                        for f, a in steps)


def transforms(ctx):
    r = "R2-transform"
    pts = [(s[0], s[1]), (s[2], neg(s[3])), (0, 2)]
    cls = ctx.prog.cls("Points", "svg")
    for nm, steps in STEPS.items():
        for style in ("commas", "spaces", "both", "compact"):
            def body(l):
                begin(l)
                p = l.call(V.ClassRef(cls), [list(pts)], {})
                q = l.call(l.getattr(p, "transform"), [written(words(l), steps, style)], {})
                return xy(l, q), xy(l, p)
            C.check(ctx, r, f"svg.Points.transform[{nm},{style}]", lift(ctx, body),
                    (S.apply(pts, steps), pts))
    for bad in ("rotate(1)", "translate(1)skewX(2)", "magic(1,2)"):
        C.check_raises(ctx, r, f"svg.Points.transform[{bad}]", lift(ctx, lambda l: (
            begin(l), l.call(l.getattr(l.call(V.ClassRef(cls), [list(pts)], {}),
                                       "transform"), [bad], {}))))


# -- documents ----------------------------------------------------------------------------
def document(l, body, **attrs):
    w = words(l)

    def put(m):
        return "".join(w(x) if not isinstance(x, str) else x for x in m)
    return put(body)


def read(ctx, l, doc, **kw):
    fs = begin(l)
    fs.files["doc.svg"] = document(l, doc)
    out = l.call_func(ctx.prog.func("svg", "read"), ["doc.svg"], kw)
    return out


def to_image(points, img, size=None, steps=()):
    """Points relative to an image with a given box, drawn with transform steps."""
    x, y, wd, ht = S.box(S.apply(S.rect(*img), steps))
    nx, ny = size or img[2:]
    return [(T.mul(T.sub(px, x), T.div(nx, wd)), T.mul(T.sub(py, y), T.div(ny, ht)))
            for px, py in points]


def documents(ctx):
    r = "R3-image"
    a, b, c, d = s[:4]
    ix, iy = s[8:10]
    wd, ht, gx, gy = syms("pos", 4, "pos")
    nx, ny = T.sym("nx", (), "posint"), T.sym("ny", (), "posint")
    SYMS.update((wd, ht, gx, gy))
    head = '<svg xmlns="http://www.w3.org/2000/svg" width="9">'
    line = ['<path id="one" d="M ', a, ",", b, " L ", c, ",", d, '"/>']
    pts = [(a, b), (c, d)]
    dot = ['<circle id="two" class="k" cx="', c, '" cy="', d, '" r="2"/>']
    full = ['<image width="', wd, '" height="', ht, '"/>']
    moved = ['<image id="photo" x="', ix, '" y="', iy, '" width="', wd, '" height="', ht,
             '"/>']
    at0, at1 = (0, 0, wd, ht), (ix, iy, wd, ht)
    T1 = ['<g transform="translate(', t[0], ",", t[1], ')">']
    step1 = [("translate", t[:2])]
    T2 = ['<g id="group" transform="scale(', gx, " ", gy, ')">']
    step2 = [("scale", [gx, gy])]

    def corners(img, size=None, steps=()):
        return to_image(S.apply(S.rect(*img), steps), img, size, steps)

    cases = {
        "no image": ([head, *line, *dot, "</svg>"], {},
                     {"path": pts, "circle": [(c, d)]}),
        "image": ([head, *full, *line, "</svg>"], {},
                  {"image": corners(at0), "path": pts}),
        "image moved": ([head, *line, *moved, "</svg>"], {},
                        {"path": to_image(pts, at1), "image": corners(at1)}),
        "image sized": ([head, *line, *full, "</svg>"], {"imgsz": (nx, ny)},
                        {"path": to_image(pts, at0, (nx, ny)),
                         "image": corners(at0, (nx, ny))}),
        "image moved, sized": (
            [head, *moved, *line, *dot, "</svg>"], {"imgsz": (nx, ny)},
            {"image": corners(at1, (nx, ny)), "path": to_image(pts, at1, (nx, ny)),
             "circle": to_image([(c, d)], at1, (nx, ny))}),
        "image scaled": (
            [head, *T2, *moved, "</g>", *line, "</svg>"], {},
            {"g": {"image": corners(at1, None, step2)},
             "path": to_image(pts, at1, None, step2)}),
        "all scaled": (
            [head, *T2, *line, *moved, "</g></svg>"], {},
            {"g": {"path": to_image(S.apply(pts, step2), at1, None, step2),
                   "image": corners(at1, None, step2)}}),
        "groups": (
            [head, *T1, *T2, *line, "</g>", *dot, "</g>", *full, *dot, "</svg>"], {},
            {"g": {"g": {"path": S.apply(pts, step1 + step2)},
                   "circle": S.apply([(c, d)], step1)},
             "image": corners(at0), "circle": [(c, d)]}),
        "transformed path": (
            [head, *T2, '<path transform="translate(', t[2], ')" d="m ', a, " ", b, "l",
             c, ",", d, '"/></g>', *full, "</svg>"], {},
            {"g": {"path": S.apply([(a, b), (T.add(a, c), T.add(b, d))],
                                   step2 + [("translate", t[2:3])])},
             "image": corners(at0)}),
        "last image": (
            [head, *full, *line, *moved, "</svg>"], {},
            {"image": [to_image(S.rect(*at0), at1), corners(at1)],
             "path": to_image(pts, at1)}),
        "same names": (
            [head, *line, *dot, *line, '<g>', *line, *line, *dot, "</g><g/><g>", *dot,
             "</g></svg>"], {},
            {"path": [pts, pts], "circle": [(c, d)],
             "g": [{"path": [pts, pts], "circle": [(c, d)]}, {},
                   {"circle": [(c, d)]}]}),
        "key": (
            [head, *T2, *line, *dot, "</g>", *line, *moved,
             '<path d="M', a, ' 1"/></svg>'], {"key": "id"},
            {"group": {"one": to_image(S.apply(pts, step2), at1),
                       "two": to_image(S.apply([(c, d)], step2), at1)},
             "one": to_image(pts, at1), "photo": corners(at1),
             "path": to_image([(a, 1)], at1)}),
        "other key": (
            [head, *dot, *dot, *line, "</svg>"], {"key": "class"},
            {"k": [[(c, d)], [(c, d)]], "path": pts}),
        "key, sized": (
            [head, *dot, *moved, "</svg>"], {"key": "id", "imgsz": (nx, ny)},
            {"two": to_image([(c, d)], at1, (nx, ny)),
             "photo": corners(at1, (nx, ny))}),
        "image moved across": (
            [head, *line, '<image y="0" x="', ix, '" width="', wd, '" height="', ht,
             '"/></svg>'], {},
            {"path": to_image(pts, (ix, 0, wd, ht)),
             "image": corners((ix, 0, wd, ht))}),
        "image moved down": (
            [head, *line, '<image y="', iy, '" width="', wd, '" height="', ht,
             '"/></svg>'], {},
            {"path": to_image(pts, (0, iy, wd, ht)),
             "image": corners((0, iy, wd, ht))}),
        "image as wide": (
            [head, *line, '<image width="40" height="', ht, '"/></svg>'],
            {"imgsz": (40, ny)},
            {"path": to_image(pts, (0, 0, 40, ht), (40, ny)),
             "image": corners((0, 0, 40, ht), (40, ny))}),
        "image as high": (
            [head, *line, '<image width="', wd, '" height="30"/></svg>'],
            {"imgsz": (nx, 30)},
            {"path": to_image(pts, (0, 0, wd, 30), (nx, 30)),
             "image": corners((0, 0, wd, 30), (nx, 30))}),
        "empty first": (
            [head, '<path id="none"/><g id="void"/>', *line, *moved, "</svg>"],
            {"key": "id"},
            {"none": [], "void": {}, "one": to_image(pts, at1), "photo": corners(at1)}),
        "other elements": (
            [head, "<title>text</title><!-- note -->", *line, "<text>t</text>",
             '<path/>', "</svg>"], {},
            {"title": {}, "path": [pts, []], "text": {}}),
        "prefixes": (
            ['<s:svg xmlns:s="http://www.w3.org/2000/svg" xmlns:o="other"><s:circle '
             'o:label="name" cx="', a, '" cy="', b, '"/></s:svg>'], {"key": "label"},
            {"name": [(a, b)]}),
        "empty": ([head, "</svg>"], {}, {}),
    }
    for nm, (doc, kw, want) in cases.items():
        C.check(ctx, r, f"svg.read[{nm}]", lift(ctx, lambda l: read(ctx, l, doc, **kw)),
                want)
    for nm, doc, kw in (
            ("no svg", ["<g>", *line, "</g>"], {}),
            ("two svg", [head, head, *line, "</svg></svg>"], {}),
            ("size without image", [head, *line, "</svg>"], {"imgsz": (nx, ny)}),
            ("other transform", [head, '<g transform="rotate(1)">', *line, "</g></svg>"],
             {})):
        C.check_raises(ctx, r, f"svg.read[{nm}]", lift(
            ctx, lambda l: read(ctx, l, doc, **kw)))


# -- writing ------------------------------------------------------------------------------
def elements(ctx):
    r = "R4-write"
    a, b, c, d, e, f = s[:6]
    open_ = [(a, 1), (b, c), (neg(d), 2)]
    closed = [*open_, open_[0]]
    x, y, wd, ht = S.box([(a, b), (c, d), (e, f)])
    cls = V.ClassRef(ctx.prog.cls("Points", "svg"))
    tiny = [(1e-07, -2.5e+22), (0.1, 3), (-4, 1e16)]
    cases = [(tag, nm, p, p) for tag in ("path", "polyline", "polygon") for nm, p in (
        ("closed", closed), ("point", open_[:1]), ("empty", []),
        ("same points", [(a, b), (a, b)])) if tag != "polygon" or nm != "same points"]
    cases += [(tag, nm, p, p) for tag in ("path", "polyline") for nm, p in (
        ("open", open_), ("two", open_[:2]), ("known", tiny))]
    cases += [("polygon", "open", open_, closed), ("polygon", "known", tiny,
                                                   [*tiny, tiny[0]]),
              ("line", "three", open_, [open_[0], open_[2]]), ("line", "empty", [],
                                                               [(0, 0), (0, 0)]),
              ("circle", "three", open_, open_[:1]), ("circle", "empty", [], [(0, 0)])]
    for tag in ("rect", "image", "svg"):
        p = [(a, b), (c, d), (e, f)]
        cases += [(tag, "box", p, S.rect(x, y, wd, ht)),
                  (tag, "empty", [], [] if tag == "svg" else S.rect(0, 0, 0, 0))]
    for tag, nm, p, want in cases:
        def body(l):
            begin(l)
            pts = l.call(cls, [list(p)], {})
            at = l.call(l.getattr(pts, "to_element"), [tag], {})
            at = {k: l.resolve(v) for k, v in l.resolve(at).items()}
            if not all(isinstance(v, str) for v in at.values()):
                raise V.Unsupported("attributes of unknown text")
            return xy(l, points_of(ctx, l, tag, **at)), xy(l, pts)
        C.check(ctx, r, f"svg.Points.to_element[{tag},{nm}]", lift(ctx, body), (want, p))
    C.check_raises(ctx, r, "svg.Points.to_element[magic]", lift(ctx, lambda l: (
        begin(l), l.call(l.getattr(l.call(cls, [list(open_)], {}), "to_element"),
                         ["magic"], {}))))


def files(ctx):
    r = "R4-write"
    a, b, c, d = s[:4]
    one, two = [(a, b), (c, d), (1, 2)], [(c, neg(a)), (2, b)]
    want = {"g": {"path": [one, two]}, "image": S.rect(0, 0, 40, 30)}

    def fn(l, name, *args, **kw):
        return l.call_func(ctx.prog.func("svg", name), list(args), kw)

    def tree(l):
        g = fn(l, "g", fn(l, "path", list(one), id="first"),
               fn(l, "path", list(two)), id="group")
        return fn(l, "svg", g, fn(l, "image", 40, 30, href="photo.jpg", id="photo"))

    for nm, kw in (("plain", {}), ("indent 0", {"indent": 0}), ("indent 4", {"indent": 4}),
                   ("negative", {"indent": -1}), ("tabs", {"indent": "\t"}),
                   ("text", {"indent": ""})):
        def body(l):
            fs = begin(l, {"kept": "kept"})
            e = tree(l)
            ret = fn(l, "write", e, "out.svg", **kw)
            again = fn(l, "write", e)
            return ret, fn(l, "read", "out.svg"), fn(l, "read", "out.svg", key="id"), \
                again, sorted(fs.files)

        def plain(l):
            begin(l)
            return fn(l, "write", tree(l))
        flat = lift(ctx, plain)
        C.check(ctx, r, f"svg.write[{nm}]", lift(ctx, body), (
            None, want, {"group": {"first": one, "path": two}, "photo": want["image"]},
            flat.value, ["kept", "out.svg"]))

    def overwritten(l):
        begin(l)
        fn(l, "write", fn(l, "svg", fn(l, "path", list(two), id="old"), fn(
            l, "g", fn(l, "path", list(one)), fn(l, "image", 12.5, 8.25)),
            fn(l, "path", [*one, *one, one[0]])), "out.svg")
        first = fn(l, "read", "out.svg")
        fn(l, "write", tree(l), "out.svg", indent=2)
        return first, fn(l, "read", "out.svg")
    C.check(ctx, r, "svg.write[overwritten]", lift(ctx, overwritten), (
        {"path": [two, [*one, *one, one[0]]],
         "g": {"path": one, "image": S.rect(0, 0, 12.5, 8.25)}}, want))

    def lines(l):
        """Spaces or tabs before each line, and texts of elements."""
        begin(l)
        out = []
        for kw in ({"indent": 3}, {"indent": "\t"}, {"indent": 0}):
            txt = l.resolve(fn(l, "write", tree(l), **kw))
            if not isinstance(txt, str):
                raise V.Unsupported("text of unknown content")
            out.append([len(x) - len(x.lstrip()) for x in txt.rstrip().split("\n")])
        return out
    levels = [0, 1, 2, 2, 1, 1, 0]
    C.check(ctx, r, "svg.write[lines]", lift(ctx, lines), [
        [3 * n for n in levels], levels, [0] * 7])

    def note(l):
        fs = begin(l)
        e = tree(l)
        l.setattr(l.iterate(e)[0], "text", " note ")
        fn(l, "write", e, "out.svg", indent=2)
        txt = fs.files["out.svg"]
        if not isinstance(txt, str):
            raise V.Unsupported("text of unknown content")
        return " note " in txt
    C.check(ctx, r, "svg.write[text kept]", lift(ctx, note), True)

    def content(l, e):
        e = l.resolve(e)
        return [l.resolve(l.getattr(e, k)) for k in ("tag", "text", "tail")] + [
            sorted(l.resolve(l.getattr(e, "attrib")).items()),
            [content(l, x) for x in l.iterate(e)]]

    def kept(l):
        begin(l)
        e = tree(l)
        l.setattr(l.iterate(e)[0], "text", " note ")
        before = content(l, e)
        fn(l, "write", e, "out.svg", indent=2)
        fn(l, "write", e, indent="\t")
        return before, content(l, e)

    def untouched(l):
        v = kept(l)
        return v[0], v[0]
    both = lift(ctx, untouched)
    C.check(ctx, r, "svg.write[element kept]", lift(ctx, kept), both.value)

    def returned(l):
        fs = begin(l)
        for i, kw in enumerate(({}, {"indent": 2}, {"indent": "\t"})):
            txt = l.resolve(fn(l, "write", tree(l), **kw))
            if not isinstance(txt, str):
                raise V.Unsupported("text of unknown content")
            fs.files[f"f{i}"] = txt
        return [fn(l, "read", f"f{i}", key="id") for i in range(3)], [
            len(fs.files["f0"].split("\n")), len(fs.files["f1"].split("\n"))]
    named = {"group": {"first": one, "path": two}, "photo": want["image"]}
    C.check(ctx, r, "svg.write[returned]", lift(ctx, returned), ([named] * 3, [1, 7]))

    def sized(l):
        begin(l)
        p = fn(l, "path", "M 1,2")
        img = [fn(l, "image", 12, 8), fn(l, "image", 40, 30)]
        return [sorted((k, v) for k, v in l.resolve(l.getattr(e, "attrib")).items()
                       if k in ("width", "height", "id")) for e in (
            fn(l, "svg", p), fn(l, "svg", p, img[0]), fn(l, "svg", img[0], p, img[1]),
            fn(l, "svg", fn(l, "g", img[1], p), id="x"),
            fn(l, "svg", img[0], width="3", height="4"))]
    C.check(ctx, r, "svg.svg[size]", lift(ctx, sized), [
        [], [("height", "8"), ("width", "12")], [("height", "30"), ("width", "40")],
        [("height", "30"), ("id", "x"), ("width", "40")],
        [("height", "4"), ("width", "3")]])
