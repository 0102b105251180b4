"""C26: metadata of images."""
import datetime

from ..spec import exifcodes
from ..vg import compare as C
from ..vg import npmod
from ..vg import term as T
from ..vg import value as V
from ..vg.interp import PyError
from .c06 import lift, method

PATH = "a.jpg"
BASE = datetime.datetime(2014, 10, 13, 2, 3, 30)
EPOCH = T.sym("epoch", (), "datetime")
NAMES = ("imgsz", "datetime", "exposure", "aperture", "iso", "fmm", "make", "model",
         "sensorsz")


def ratio(name):
    return tuple(T.sym(f"{name}{i}", (), "posint") for i in range(2))


def tags(**more):
    """Tags of an image by group, as read from a file; tags that are None are missing."""
    d = {"0th": {"Make": b"NIKON CORPORATION", "Model": b"NIKON D200",
                 "Orientation": 1, "XResolution": ratio("res")},
         "Exif": {"PixelXDimension": T.sym("nx", (), "posint"),
                  "PixelYDimension": T.sym("ny", (), "posint"),
                  "DateTimeOriginal": b"2014:10:13 02:03:36",
                  "SubSecTimeOriginal": b"28",
                  "ExposureTime": ratio("exposure"), "FNumber": ratio("number"),
                  "ISOSpeedRatings": T.sym("iso", (), "posint"),
                  "FocalLength": ratio("focal"), "ExposureProgram": 3},
         "GPS": {"GPSLatitudeRef": b"N"},
         "Interop": {}, "1st": {"Compression": 6}, "thumbnail": b"jpeg"}
    for k, v in more.items():
        g = "0th" if k in d["0th"] else "Exif"
        d[g].pop(k, None)
        if v is not None:
            d[g][k] = v
    return d


def moment(t):
    """The term of a date and time."""
    d = t - BASE
    return T.add(EPOCH, d.days * 86400.0 + d.seconds + d.microseconds / 1e6)


def since(v):
    """A time as the seconds since a fixed one; other values are kept."""
    return T.sub(v, EPOCH) if isinstance(v, T.Node) and npmod.temporal(v) else v


def plain(v):
    return isinstance(v, (str, int, float)) and not isinstance(v, T.Node)


def stand_ins(l, files, seen):
    """What is read from and written to image files."""
    for ifd, codes in exifcodes.CODES.items():
        npmod.EXT_CONST["piexif." + ifd] = V.Obj("module", dict(codes))

    def load(l, args, kwargs):
        d = dict(zip(("input_data", "key_is_name"), args))
        d.update(kwargs)
        path = l.resolve(d["input_data"])
        if path not in files:
            raise PyError("FileNotFoundError: " + str(path))
        seen.append(path)
        src = files[path]
        if l.resolve(d.get("key_is_name", False)) is not True:
            out = {}
            for g, t in src.items():
                c = exifcodes.CODES["ImageIFD" if g in ("0th", "1st") else g + "IFD"] \
                    if g != "thumbnail" else None
                out[g] = t if c is None else {c[k]: v for k, v in t.items()}
            return out
        return {g: dict(t) if isinstance(t, dict) else t for g, t in src.items()}

    def dump(l, args, kwargs):
        return V.Obj("dumped", {"tags": l.resolve(args[0] if args else kwargs["exif_dict"])})

    def insert(l, args, kwargs):
        d = dict(zip(("exif", "image", "new_file"), args))
        d.update(kwargs)
        seen.append(("insert", l.resolve(d["image"]), l.resolve(d["exif"])))

    def strptime(l, args, kwargs):
        s, f = [l.resolve(a) for a in args]
        if not (isinstance(s, str) and isinstance(f, str)):
            raise V.Unsupported("time of an unknown text")
        try:
            return moment(datetime.datetime.strptime(s, f))
        except ValueError as e:
            raise PyError(f"ValueError: could not convert: {e}")

    def made(l, args, kwargs):
        args = [l.resolve(a) for a in args]
        kwargs = {k: l.resolve(a) for k, a in kwargs.items()}
        if not all(plain(a) for a in [*args, *kwargs.values()]):
            raise V.Unsupported("time of unknown parts")
        return moment(datetime.datetime(*args, **kwargs))
    l.ext["piexif.load"] = load
    l.ext["piexif.dump"] = dump
    l.ext["piexif.insert"] = insert
    l.ext["datetime.datetime.strptime"] = strptime
    l.ext["datetime.datetime"] = made


def exif(l, files, seen, path=PATH, **kw):
    stand_ins(l, files, seen)
    return l.construct(l.prog.cls("Exif"), [path], kw)


def run(ctx):
    ctx.rule("R1-tags", "metadata are the values of the tags they are documented to come "
             "from, in the documented units, and missing if the tags are")
    ctx.rule("R2-arguments", "cameras and times of images are those given, supplemented "
             "by the metadata of the image, which is read only if needed")
    ctx.rule("R3-written", "all tags are written under their codes, invalid tags are "
             "rejected, and the tags are kept")
    parsed(ctx)
    images(ctx)
    written(ctx)
    ctx.need("R1-tags", 3)
    ctx.need("R2-arguments", 3)
    ctx.need("R3-written", 1)


def value(r):
    return T.div(*r)


SENSORS = {  # dpreview.com
    ("NIKON CORPORATION", "NIKON D2X"): (23.7, 15.7),
    ("NIKON CORPORATION", "NIKON D200"): (23.6, 15.8),
    ("NIKON CORPORATION", "NIKON D300S"): (23.6, 15.8),
    ("NIKON", "E8700"): (8.8, 6.6),
    ("Canon", "Canon EOS 20D"): (22.5, 15.0),
    ("Canon", "Canon EOS 40D"): (22.2, 14.8),
}


def expected(d):
    e, z = d["Exif"], d["0th"]
    out = dict.fromkeys(NAMES)
    if "PixelXDimension" in e and "PixelYDimension" in e:
        out["imgsz"] = (e["PixelXDimension"], e["PixelYDimension"])
    if "DateTimeOriginal" in e:
        t = datetime.datetime.strptime(e["DateTimeOriginal"].decode(), "%Y:%m:%d %H:%M:%S")
        if "SubSecTimeOriginal" in e:
            digits = e["SubSecTimeOriginal"].decode()
            t = t.replace(microsecond=int((digits + "000000")[:6]))
        out["datetime"] = moment(t)
    for k, tag in (("exposure", "ExposureTime"), ("aperture", "FNumber"),
                   ("fmm", "FocalLength")):
        if tag in e and e[tag][1] != 0:
            out[k] = value(e[tag])
    if "ISOSpeedRatings" in e:
        out["iso"] = e["ISOSpeedRatings"]
    for k in ("make", "model"):
        if k.title() in z:
            out[k] = z[k.title()].decode()
    if out["make"] and out["model"]:
        out["sensorsz"] = SENSORS.get((out["make"].strip(), out["model"].strip()))
    return out


def parsed(ctx):
    r = "R1-tags"
    cases = [("all", {})]
    cases += [(f"no {k}", {k: None}) for k in (
        "PixelXDimension", "PixelYDimension", "DateTimeOriginal", "SubSecTimeOriginal",
        "ExposureTime", "FNumber", "ISOSpeedRatings", "FocalLength", "Make", "Model")]
    cases += [(f"unknown {k}", {k: (n, 0)}) for k, n in (
        ("ExposureTime", 0), ("FNumber", 1), ("FocalLength", 0))]
    cases += [(f"subseconds {s}", {"SubSecTimeOriginal": s.encode()})
              for s in ("", "0", "00", "05", "5", "123456")]
    cases += [(f"time {s}", {"DateTimeOriginal": s.encode()})
              for s in ("2000:12:31 23:59:59", "1999:02:03 00:00:01")]
    cases += [(f"{a} {b}", {"Make": a.encode(), "Model": b.encode()}) for a, b in SENSORS]
    cases += [("padded", {"Make": b"Canon  ", "Model": b" Canon EOS 20D "}),
              ("other camera", {"Make": b"Canon", "Model": b"Canon EOS 5D"})]
    for tag, change in cases:
        d = tags(**change)
        want = expected(d)
        for k in NAMES:
            if tag != "all" and k not in ("datetime", "sensorsz") and \
                    want[k] is not None and expected(tags())[k] is not None:
                continue

            def body(l, k=k):
                return since(l.getattr(exif(l, {PATH: d}, []), k))
            C.check(ctx, r, f"Exif.{k}[{tag}]", lift(ctx, body), since(want[k]))

    def groups(l):
        return [sorted(l.resolve(l.getattr(exif(l, {PATH: tags()}, [], **kw), "tags")))
                for kw in ({}, {"thumbnail": True}, {"thumbnail": False})]
    few, every = ["0th", "Exif", "GPS", "Interop"], ["0th", "1st", "Exif", "GPS",
                                                     "Interop", "thumbnail"]
    C.check(ctx, r, "Exif.tags[groups]", lift(ctx, groups), [few, every, few])

    def others(l):
        e = exif(l, {PATH: tags()}, [], thumbnail=True)
        return [method(l, e, "parse_tag", *a, **k) for a, k in (
            (("ExposureProgram",), {}), (("XResolution", "0th"), {}),
            (("GPSLatitudeRef",), {"group": "GPS"}), (("Compression", "1st"), {}),
            (("Compression",), {}), (("Make",), {}), (("Make", "Other"), {}))]
    C.check(ctx, r, "Exif.parse_tag", lift(ctx, others), [
        3, value(ratio("res")), "N", 6, None, None, None])


# -- images -------------------------------------------------------------------------------
def images(ctx):
    r = "R2-arguments"
    when = moment(datetime.datetime(2020, 1, 2, 3, 4, 5))
    meta = expected(tags())
    given = {"imgsz": (640, 480), "fmm": 28.5, "sensorsz": (20.5, 10.25), "f": 900.0,
             "cmm": 0.5, "c": 3.0, "xyz": (1.0, 2.0, 3.0), "k": (0.1, 0.2)}
    combos = [None, {}, ("fmm",), ("imgsz",), ("sensorsz",), ("fmm", "sensorsz"),
              ("imgsz", "fmm"), ("imgsz", "sensorsz"), ("imgsz", "fmm", "sensorsz"),
              ("f",), ("imgsz", "f"), ("xyz", "fmm"), ("cmm",), ("c", "k", "xyz"),
              ("imgsz", "fmm", "sensorsz", "cmm", "k"), ("f", "imgsz", "c", "xyz")]
    need = {"imgsz", "fmm", "sensorsz"}
    for names in combos:
        kw = {k: given[k] for k in names or ()}
        full = dict(kw)
        for k in ("imgsz", "fmm", "sensorsz"):
            if k not in full and not ("f" in full and k != "imgsz"):
                full[k] = meta[k]
        reads = not (need <= set(kw) or {"imgsz", "f"} <= set(kw))
        for time in (None, when):
            for src in (None, "exif"):
                tag = f"{'+'.join(kw) or names},{'time' if time is not None else 'no time'},{src}"

                def body(l):
                    seen = []
                    files = {PATH: tags(FNumber=(1, 2))}
                    if src:
                        # its own metadata are different
                        files = {PATH: tags(PixelXDimension=4, FocalLength=(9, 1),
                                            DateTimeOriginal=b"2000:01:01 00:00:00"),
                                 "b.jpg": tags()}
                        e = exif(l, files, seen, "b.jpg")
                        del seen[:]
                    else:
                        stand_ins(l, files, seen)
                        e = None
                    before = dict(kw)
                    img = l.construct(l.prog.cls("Image"), [PATH], {
                        "cam": None if names is None else dict(kw), "exif": e,
                        "datetime": time})
                    cam = l.getattr(img, "cam")
                    ref = l.construct(l.prog.cls("Camera"), [], dict(full))
                    del before
                    kept = l.getattr(img, "exif")
                    held = kept is e if src else kept is not None
                    return (diff(l, cam, ref), since(l.getattr(img, "datetime")), len(set(seen)),
                            held, l.getattr(img, "path"), l.getattr(img, "array"),
                            l.getattr(img, "size"))
                n = int(not src and (reads or time is None))
                size = full["imgsz"]
                C.check(ctx, r, f"Image[{tag}]", lift(ctx, body), (
                    [0.0] * len(KEYS), since(meta["datetime"] if time is None else time), n,
                    bool(src) or bool(n), PATH, None, V.to_arr(list(size))))

    def of_camera(l):
        seen = []
        stand_ins(l, {PATH: tags()}, seen)
        cam = l.construct(l.prog.cls("Camera"), [], {"imgsz": (4, 2), "f": 3})
        img = l.construct(l.prog.cls("Image"), [PATH], {"cam": cam, "datetime": when})
        return l.getattr(img, "cam") is cam, len(seen), l.getattr(img, "exif")
    C.check(ctx, r, "Image[camera]", lift(ctx, of_camera), (True, 0, None))

    def of_camera_untimed(l):
        seen = []
        stand_ins(l, {PATH: tags()}, seen)
        cam = l.construct(l.prog.cls("Camera"), [], {"imgsz": (4, 2), "f": 3})
        img = l.construct(l.prog.cls("Image"), [PATH, cam], {})
        return l.getattr(img, "cam") is cam, len(seen), since(l.getattr(img, "datetime"))
    C.check(ctx, r, "Image[camera,no time]", lift(ctx, of_camera_untimed), (
        True, 1, since(meta["datetime"])))
    kw = {k: given[k] for k in ("imgsz", "fmm", "sensorsz")}
    for tag, lost in (("time", ("DateTimeOriginal",)),
                      ("others", ("PixelXDimension", "FocalLength", "Make", "FNumber"))):
        def of_poor(l):
            seen = []
            e = exif(l, {PATH: tags(), "b.jpg": tags(**dict.fromkeys(lost))}, seen, "b.jpg")
            del seen[:]
            img = l.construct(l.prog.cls("Image"), [PATH], {"cam": dict(kw), "exif": e})
            return (l.getattr(img, "exif") is e, len(seen),
                    since(l.getattr(img, "datetime")))
        C.check(ctx, r, f"Image[metadata without {tag}]", lift(ctx, of_poor), (
            True, 0, None if tag == "time" else since(meta["datetime"])))


KEYS = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p", "sensorsz")


def diff(l, a, b):
    """Sums of the absolute differences of the parameters of two cameras."""
    out = []
    for k in KEYS:
        x, y = (l.resolve(l.getattr(o, k)) for o in (a, b))
        if x is None or y is None:
            out.append(0.0 if x is y or k == "sensorsz" else 1.0)
            continue
        s = 0.0
        for p, q in zip(V.to_arr(x).data.ravel(), V.to_arr(y).data.ravel()):
            d = T.sub(p, q)
            s = T.add(s, T.mul(d, d))
        out.append(s)
    return out


# -- written ------------------------------------------------------------------------------
def coded(d):
    out = {}
    for g, t in d.items():
        if g == "thumbnail":
            out[g] = t
            continue
        codes = exifcodes.CODES["ImageIFD" if g in ("0th", "1st") else g + "IFD"]
        out[g] = {codes[k]: v for k, v in t.items()}
    return out


def as_list(d):
    """Tags sorted by group and code or name; texts and bytes as literals."""
    def one(v):
        if isinstance(v, (str, bytes)):
            return repr(v)
        return list(v) if isinstance(v, tuple) else v
    return [[g, [[k if isinstance(k, (int, str)) else repr(k), one(v)]
                 for k, v in sorted(t.items(), key=lambda i: str(i[0]))]
             if isinstance(t, dict) else one(t)]
            for g, t in sorted(d.items(), key=lambda i: str(i[0]))]


def written(ctx):
    r = "R3-written"
    for tag, kw in (("all", {}), ("thumbnail", {"thumbnail": True})):
        want = tags()
        if not kw:
            want.pop("1st"), want.pop("thumbnail")

        def body(l, edit=False):
            e = exif(l, {PATH: tags()}, [], **kw)
            out = method(l, e, "dump")
            return (as_list(l.resolve(out.attrs["tags"])),
                    as_list(l.resolve(l.getattr(e, "tags"))))
        C.check(ctx, r, f"Exif.dump[{tag}]", lift(ctx, body), (
            as_list(coded(want)), as_list(want)))

        def edited(l):
            e = exif(l, {PATH: tags()}, [], **kw)
            t = l.resolve(l.getattr(e, "tags"))
            t["Exif"]["ISOSpeedRatings"] = 640
            t["GPS"]["GPSLongitudeRef"] = "W"
            del t["0th"]["Make"]
            seen = []
            stand_ins(l, {PATH: tags()}, seen)
            method(l, e, "insert", "b.jpg")
            if len(seen) != 1:
                return len(seen), [], 0
            _, path, out = seen[0]
            if not (isinstance(path, str) and isinstance(out, V.Obj)):
                return "other", [], 0
            return path, as_list(l.resolve(out.attrs["tags"])), l.getattr(e, "iso")
        d = dict(want)
        d["Exif"] = dict(d["Exif"], ISOSpeedRatings=640)
        d["GPS"] = dict(d["GPS"], GPSLongitudeRef="W")
        d["0th"] = {k: v for k, v in d["0th"].items() if k != "Make"}
        C.check(ctx, r, f"Exif.insert[{tag}]", lift(ctx, edited), (
            "b.jpg", as_list(coded(d)), 640))
    for tag, bad in (("group", {"Unknown": {}}), ("tag", {"Exif": {"Unknown": 0}}),
                     ("other group", {"GPS": {"Make": b"a"}}),
                     ("second", {"Exif": {"FNumber": (1, 2)}, "0th": {"FNumber": (1, 2)}})):
        def rejected(l):
            e = exif(l, {PATH: tags()}, [])
            l.setattr(e, "tags", {k: dict(v) for k, v in bad.items()})
            return method(l, e, "dump")
        C.check_raises(ctx, r, f"Exif.dump[invalid {tag}]", lift(ctx, rejected), "ValueError")
