"""C24: what is written to files is read back."""
from ..spec import camera as S
from ..vg import compare as C
from ..vg import term as T
from ..vg import textmod
from ..vg import value as V
from ..vg import world
from .c06 import lift, method

NAN = float("nan")
x, y, z = (T.sym(f"w{i}") for i in range(3))
OBJECTS = {
    "numbers": {"a": [x, y], "b": z, "c": -1.5, "d": 0},
    "list": [x, [y, z], []],
    "nested lists": {"m": [[x, y], [z, 1], [], [[2]]], "n": [[[x]]]},
    "dictionaries in lists": {"p": [{"q": [x, y]}, {"r": z}], "s": {"t": {"u": [1, 2]}}},
    "texts": {"a": ["one two", "three, four", " "], "b": "five  six", "c": []},
    "brackets in texts": {"a": ["x [1, 2] y", "] ["], "b": "[ 3 ,  4 ]", "c": [x, "{"],
                          "d [ 5": "e, f"},
    "quotes in texts": {"a": ['say "no, [ no ]"', "\\", '\\"'], "b": [1, '"']},
    "constants": {"a": [None, True, False], "b": None, "c": [], "d": {}},
    "line breaks": {"a": ["one\ntwo", "three\t four"], "b": [x]},
    "empty list": [],
}
FORMATS = [{}, {"indent": 2}, {"indent": 0}, {"indent": "\t"},
           {"flat_arrays": True}, {"flat_arrays": True, "indent": None},
           {"flat_arrays": True, "indent": 4}, {"flat_arrays": True, "indent": 0},
           {"flat_arrays": True, "indent": "  "}, {"flat_arrays": True, "indent": -1},
           {"flat_arrays": True, "indent": 2, "separators": (",", ":")},
           {"flat_arrays": True, "indent": 1, "separators": (" , ", " : ")},
           {"separators": (",", ":"), "sort_keys": True}]
PATHS = ("file", "have/file.ext", "have/not/file", "new/deeper/still/file.a.b", "have/file.pkl.gz",
         "file.GZ")


def run(ctx):
    ctx.rule("R1-json", "JSON text means the object it was written from, whatever the "
             "layout, arrays of numbers on one line if asked for")
    ctx.rule("R2-pickle", "an object read from a pickle equals the object written, for "
             "each kind of pickle")
    ctx.rule("R3-folders", "missing folders are created, existing ones and other files "
             "stay")
    ctx.rule("R4-camera", "a camera read from its JSON has the attributes that were "
             "written, those missing or given by the caller aside")
    json_text(ctx)
    json_file(ctx)
    pickles(ctx)
    camera(ctx)
    ctx.need("R1-json", 10)
    ctx.need("R4-camera", 3)
    ctx.assumptions += ["the json and pickle modules as documented; numerals in texts "
                        "stand for unknown numbers; a file system of whole files"]


def begin(l, files=None):
    fs = world.Files(l, dict(files or {}, **{"have/kept": "kept", "kept": "too"}),
                     folders=("have",))
    textmod.Text(l, {}, fs)
    return fs


def copy(v):
    if isinstance(v, dict):
        return {k: copy(a) for k, a in v.items()}
    return [copy(a) for a in v] if isinstance(v, list) else v


def json_text(ctx):
    for nm, obj in OBJECTS.items():
        for kw in FORMATS:
            tag = ",".join(f"{k}={v!r}" for k, v in kw.items())

            def body(l):
                begin(l)
                t = l.resolve(l.call_func(ctx.prog.func("helpers", "write_json"),
                                          [copy(obj)], dict(kw)))
                if not isinstance(t, str):
                    raise V.Unsupported("text of unknown content")
                lines = breaks(t)
                if not kw.get("flat_arrays"):
                    lines -= breaks(l.call(V.Ext("json.dumps"), [copy(obj)], dict(kw)))
                return l.call(V.Ext("json.loads"), [t], {}), lines
            C.check(ctx, "R1-json", f"helpers.write_json[{nm},{tag}]", lift(ctx, body),
                    (obj, 0))


def breaks(t):
    """Number of line breaks in innermost arrays without objects."""
    n, inside, start, skip, text = 0, False, 0, False, False
    for i, ch in enumerate(t):
        if text:
            if skip:
                skip = False
            elif ch == "\\":
                skip = True
            elif ch == '"':
                text = False
            continue
        if ch == '"':
            text = True
        elif ch == "[":
            inside, start = True, i
        elif ch in "{}":
            inside = False
        elif ch == "]":
            if inside:
                n += t[start:i].count("\n")
            inside = False
    return n


def fn(ctx, l, name, *args, **kw):
    return l.call_func(ctx.prog.func("helpers", name), list(args), kw)


def kept(fs):
    return [fs.files.get(p) for p in ("have/kept", "kept")], sorted(
        p for p in fs.files if p not in ("have/kept", "kept"))


def json_file(ctx):
    for path in PATHS:
        for nm in ("numbers", "dictionaries in lists", "brackets in texts"):
            for kw in ({}, {"indent": 2, "flat_arrays": True}):
                def body(l):
                    fs = begin(l)
                    r = fn(ctx, l, "write_json", copy(OBJECTS[nm]), path, **kw)
                    return r, fn(ctx, l, "read_json", path), kept(fs)
                C.check(ctx, "R3-folders", f"helpers.write_json[{nm},{path},{len(kw)}]",
                        lift(ctx, body), (None, OBJECTS[nm], (["kept", "too"], [path])))

    def again(l):
        begin(l)
        fn(ctx, l, "write_json", {"a": [x, y, z, x, y]}, "f")
        fn(ctx, l, "write_json", {"b": z}, "f")
        return fn(ctx, l, "read_json", "f")
    C.check(ctx, "R1-json", "helpers.write_json[again]", lift(ctx, again), {"b": z})


def pickles(ctx):
    a = V.sym_array("pa", (2, 2))
    obj = {"a": a, "b": [x, "text", None], "c": (y, {"d": z})}
    for path in PATHS:
        for gz in (False, True):
            for binary in (True, False):
                kw = {"gz": gz, "binary": binary}

                def body(l):
                    fs = begin(l)
                    given = {"a": a.copy(), "b": [x, "text", None], "c": (y, {"d": z})}
                    fn(ctx, l, "write_pickle", given, path, **kw)
                    return fn(ctx, l, "read_pickle", path, **kw), given, kept(fs)
                C.check(ctx, "R2-pickle", f"helpers.write_pickle[{path},gz={gz},"
                        f"binary={binary}]", lift(ctx, body),
                        (obj, obj, (["kept", "too"], [path])))

    def defaults(l):
        begin(l)
        fn(ctx, l, "write_pickle", [x, y], "f")
        fn(ctx, l, "write_pickle", [z], "g", True)
        return fn(ctx, l, "read_pickle", "f"), fn(ctx, l, "read_pickle", "g", True)
    C.check(ctx, "R2-pickle", "helpers.write_pickle[defaults]", lift(ctx, defaults),
            ([x, y], [z]))
    for name in ("read_pickle", "read_json"):
        C.check_raises(ctx, "R3-folders", f"helpers.{name}[missing file]", lift(
            ctx, lambda l: (begin(l), fn(ctx, l, name, "have/none"))))


CORE = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")


def camera(ctx):
    cases = [("core", CORE, {}), ("some", ("imgsz", "f"), {}),
             ("sensor", ("imgsz", "sensorsz", "f", "xyz"), {}),
             ("millimetres", ("imgsz", "sensorsz", "fmm", "cmm", "k"), {}),
             ("correction", ("imgsz", "f", "correction"), {}),
             ("override", CORE, {"f": 1}), ("extra", ("imgsz", "viewdir"), {"f": 1}),
             ("override all", CORE, {"k": 1, "xyz": 1, "imgsz": 1})]
    for nm, attributes, over in cases:
        for sensor in (True, False):
            if "fmm" in attributes and not sensor:
                continue
            for corr in (False, True, {"radius": T.sym("radius", (), "pos")}):
                if corr and nm != "correction":
                    continue
                cam = S.Cam("full", sensor=sensor, sizes=(40, 30), moved=False,
                            correction=corr)
                new = {"f": S.vec("nf", 2, "pos"), "k": S.vec("nk", 6),
                       "xyz": S.vec("nx", 3), "imgsz": S.vec("ns", 2, "posint")}
                new = {k: new[k] for k in over}

                def body(l):
                    begin(l)
                    c = cam.build(l)
                    before = state(l, c)
                    r = method(l, c, "to_json", "new/folder/cam.json",
                               attributes=attributes, indent=4, flat_arrays=True)
                    cls = V.ClassRef(l.prog.cls("Camera"))
                    d = l.call(l.getattr(cls, "from_json"), ["new/folder/cam.json"],
                               {k: v.copy() for k, v in new.items()})
                    return r, before, state(l, c), state(l, d)
                want = expected(cam, attributes, new)
                all_ = expected(cam, CORE + ("sensorsz", "correction"), {})
                C.check(ctx, "R4-camera", f"Camera.to_json[{nm},sensor={sensor},"
                        f"correction={type(corr).__name__}{corr is True}]",
                        lift(ctx, body), (None, all_, all_, want))

    def text(l):
        begin(l)
        cam = S.Cam("full", moved=False)
        t = l.resolve(method(l, cam.build(l), "to_json"))
        t2 = l.resolve(method(l, cam.build(l), "to_json", attributes=("f", "imgsz")))
        back = [l.call(V.Ext("json.loads"), [a], {}) for a in (t, t2)]
        return [list(b) for b in back], back
    cam = S.Cam("full", moved=False)
    d = dict(xyz=cam.xyz, viewdir=cam.vd, imgsz=cam.sz, f=cam.f, c=cam.c, k=cam.k,
             p=cam.p)
    C.check(ctx, "R4-camera", "Camera.to_json[text]", lift(ctx, text), (
        [list(CORE), ["f", "imgsz"]], [{k: list(d[k].data) for k in CORE},
                                       {k: list(d[k].data) for k in ("f", "imgsz")}]))


def state(l, c):
    return [l.getattr(c, a) for a in CORE + ("sensorsz", "correction")]


def expected(cam, attributes, over):
    d = dict(xyz=cam.xyz, viewdir=cam.vd, imgsz=cam.sz, f=cam.f, c=cam.c, k=cam.k,
             p=cam.p, sensorsz=cam.ss, correction=cam.correction)
    if cam.correction is not False:
        d["correction"] = dict({"radius": 6.3781e6, "refraction": 0.13},
                               **(cam.correction if cam.correction is not True else {}))
    zero = dict(xyz=3, viewdir=3, c=2, k=6, p=2)
    names = {"fmm": "f", "cmm": "c"}
    have = {names.get(a, a) for a in attributes}
    out = {a: V.full((n,), 0.0) for a, n in zero.items()}
    out.update(sensorsz=None, correction=False)
    out.update({a: v for a, v in d.items() if a in have})
    out.update(over)
    return [out[a] for a in CORE + ("sensorsz", "correction")]
