"""C18: keypoints and matches between images, and models fitted to samples of them."""
import itertools

from ..spec import camera as S
from ..spec import grid as SG
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from ..vg import world
from .c06 import lift, method

add, mul, sub, div = T.add, T.mul, T.sub, T.div


def run(ctx):
    ctx.rule("R1-match", "matched coordinates are those of the best matches of each "
             "keypoint that meet every criterion")
    ctx.rule("R8-detection", "keypoints are detected in the 8-bit (gray, equalized) image "
             "and mask, with root descriptors if requested")
    ctx.rule("R2-keypoints", "keypoints are those of each image and mask, read, kept, "
             "written, recomputed and cleared as requested")
    ctx.rule("R3-pairs", "exactly the pairs of images meeting the criteria are matched, "
             "in an upper-triangular matrix")
    ctx.rule("R4-files", "matches are read, computed, written, converted, filtered and "
             "cleared as requested")
    ctx.rule("R5-changes", "converting, filtering, dropping and counting matches "
             "concern each match and image as documented")
    ctx.rule("R6-parallel", "parallel processing gives the same results")
    ctx.rule("R7-rejected", "invalid images and arguments are rejected")
    match_keypoints(ctx)
    detection(ctx)
    build_keypoints(ctx)
    build_matches(ctx)
    build_files(ctx)
    changes(ctx)
    rejected(ctx)
    ctx.need("R1-match", 3)


# -- match_keypoints ----------------------------------------------------------------------
RATIO = (0.5, 0.9, 0.7, 0.6)        # best to second best, of each keypoint of the first
BEST = (2, 0, 0, 1)                 # its best match
BACK = (1, 3, 2)                    # best match of each keypoint of the second
DIST = (3.0, 0.5, 2.0, 1.0)         # of the image coordinates


def keypoints(uv):
    return [V.Obj("keypoint", {"pt": (u[0], u[1])}) for u in uv]


class Pair:
    def __init__(self):
        self.A = V.sym_array("ua", (4, 2))
        B = [[T.sym(f"ub{i}{j}") for j in range(2)] for i in range(3)]
        # the first image's keypoints are at known distances from their best matches
        for q, (t, d) in enumerate(zip(BEST, DIST)):
            a = T.sym(f"ang{q}")
            self.A.data[q, 0] = add(B[t][0], mul(d, T.app("cos", a)))
            self.A.data[q, 1] = add(B[t][1], mul(d, T.app("sin", a)))
        self.B = V.to_arr(B)
        self.ratio = [T.sym(f"r{q}", (), ("range", r - 0.03, r + 0.03))
                      for q, r in enumerate(RATIO)]
        self.first = [T.sym(f"d{q}", (), "pos") for q in range(4)]
        self.da, self.db = V.sym_array("Da", (4, 3)), V.sym_array("Db", (3, 3))
        self.calls, self.few = [], {}

    def matcher(self):
        def knn(a, b, k=1, mask=None, **kw):
            fwd = a.data[0, 0] is self.da.data[0, 0]
            if not fwd and a.data[0, 0] is not self.db.data[0, 0]:
                raise V.Unsupported("descriptors")
            self.calls.append((fwd, k, mask))
            out = []
            for q, t in enumerate(BEST if fwd else BACK):
                d = self.first[q] if fwd else T.sym(f"e{q}", (), "pos")
                r = self.ratio[q] if fwd else T.sym(f"s{q}", (), "unit")
                ms = [dmatch(q, t, d), dmatch(q, (t + 1) % (3 if fwd else 4), div(d, r))]
                out.append(tuple(ms[:min(k, self.few.get((fwd, q), 2))]))
            return tuple(out)
        return V.Obj("matcher", {"knnMatch": V.Native(knn)})

    def args(self, a=4, b=3):
        return [(keypoints(self.A.data[:a]), V.Arr(self.da.data[:a].copy(), (a, 3), "f")),
                (keypoints(self.B.data[:b]), V.Arr(self.db.data[:b].copy(), (b, 3), "f"))]


def dmatch(q, t, d):
    return V.Obj("match", {"queryIdx": q, "trainIdx": t, "distance": d, "imgIdx": 0})


def rows(a, ks):
    ks = list(ks)
    return V.Arr(a.data[ks].copy().reshape(len(ks), 2), (len(ks), 2), "f")


def match_keypoints(ctx):
    r = "R1-match"
    for cross, ratio, dist, ret in itertools.product(
            (False, True), (None, 0.8, 0.65, 0.1), (None, 2.5, 1.5, 0.1), (False, True)):
        pair = Pair()
        ks = [q for q in range(4) if (not cross or BACK[BEST[q]] == q)
              and (ratio is None or RATIO[q] < ratio)
              and (dist is None or DIST[q] < dist)]
        want = (rows(pair.A, ks), rows(pair.B, [BEST[q] for q in ks]))
        if ret:
            x = V.to_arr([pair.ratio[q] for q in ks])
            x.kind = "f"
            want += (x,)
        kw = {"cross_check": cross, "max_ratio": ratio, "max_distance": dist,
              "return_ratios": ret}
        kw = {k: v for k, v in kw.items() if v is not None and v is not False}
        C.check(ctx, r, f"match_keypoints[{kw}]", lift(ctx, lambda l: call(
            l, "match_keypoints", *pair.args(), matcher=pair.matcher(), **kw)), want)
    # the mask: of keypoints of the first (rows) and second image
    for cross, ratio, short in itertools.product((False, True), (None, 0.8), (False, True)):
        mask = V.to_arr([[1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]])
        pair = Pair()
        # the matcher returns no matches of one keypoint, and one of another
        pair.few = {(True, 2): 0, (True, 3): 1, (False, 1): 0} if short else {}
        back = [None if short and k == 1 else t for k, t in enumerate(BACK)]
        ks = [q for q in range(4) if (not cross or back[BEST[q]] == q)
              and (ratio is None or RATIO[q] < ratio)
              and pair.few.get((True, q), 2) >= (2 if ratio else 1)]
        kw = {"cross_check": cross, "max_ratio": ratio, "mask": mask}

        def body(l):
            pair.calls.clear()
            out = call(l, "match_keypoints", *pair.args(), matcher=pair.matcher(), **kw)
            return out, {f: m for f, _, m in pair.calls}
        at = lambda a: V.Arr(a, a.shape, "i")
        C.check(ctx, r, f"match_keypoints[mask,cross_check={cross},max_ratio={ratio},"
                f"{'few matches' if short else ''}]", lift(ctx, body),
                ((rows(pair.A, ks), rows(pair.B, [BEST[q] for q in ks])),
                 {True: mask, **({False: at(mask.data.T)} if cross else {})}))
    for a, b, kw in ((0, 3, {}), (4, 0, {}), (1, 3, {"max_ratio": 0.8}),
                     (4, 1, {"return_ratios": True}), (0, 0, {"return_ratios": True})):
        pair = Pair()
        want = (rows(pair.A, []), rows(pair.A, []))
        if kw.get("return_ratios"):
            want += (V.Arr(V.obj_array((0,)), (0,), "f"),)
        C.check(ctx, r, f"match_keypoints[{a} and {b} keypoints,{kw}]", lift(
            ctx, lambda l: call(l, "match_keypoints", *pair.args(a, b),
                                matcher=pair.matcher(), **kw)), want)


def call(l, name, *args, **kw):
    f = l.prog.modules["glimpse.optimize"]
    return l.call(l.wrap(l.prog.lookup_in_module(f, name)), list(args), kw)


# -- images -------------------------------------------------------------------------------
OFF = (0.0, 1.0, 2.5, 4.0, 7.0)      # times of the images


def camera(k):
    c = S.Cam("none", prefix=f"c{k}", sizes=(40, 30), moved=False)
    c.xyz = SG.farr(1.0, 2.0, 3.0)
    c.f = SG.farr(50.0 + k, 49.0)
    c.c = SG.farr(0.0, 0.5)
    c.vd = SG.farr(2.0 * k, 1.0, 0.5)
    return c


class Sequence:
    """Images, keypoints of each, and matches of each pair."""

    def __init__(self, l, n=3, off=OFF, names=None, gray=False):
        self.l, self.n = l, n
        self.cams = [camera(k).build(l) for k in range(n)]
        t0 = T.sym("t0", (), "datetime")
        names = names or [f"img{k}" for k in range(n)]
        self.pixels = [V.sym_array(f"I{k}", (2, 2) if gray else (2, 2, 3), "posint")
                       for k in range(n)]
        self.images = [V.Obj("image", {
            "path": f"/in/{nm}{'.raw' if k == 1 else ''}.jpg", "datetime": add(t0, off[k]), "cam": self.cams[k],
            "array": "cached", "read": V.Native(
                lambda *a, k=k, **kw: self.pixels[k].copy())})
            for k, nm in enumerate(names)]
        self.detected = []      # (array, mask) given to the detector
        self.matched = []       # pairs of images given to the matcher
        self.files = world.Files(l)
        l.ext["cv2.SIFT.create"] = self.detector
        l.ext["cv2.SIFT_create"] = self.detector
        self.equalizers = []    # options
        l.ext["cv2.createCLAHE"] = self.clahe
        l.ext["scipy.sparse.coo_matrix"] = coo_matrix

    def make(self, **kw):
        return self.l.construct(self.l.prog.cls("KeypointMatcher"), [self.images], kw)

    def clahe(self, l, args, kw):
        self.equalizers.append([*args, kw])
        return V.Obj("CLAHE", {
            "apply": V.Native(lambda a: V.elementwise(lambda x: mul(3, x), a))})

    def detector(self, l, args, kw):
        self.detectors = getattr(self, "detectors", []) + [[*args, kw]]
        def detect(array, mask=None):
            self.detected.append((array, mask))
            return found(array.copy())
        return V.Obj("detector", {"detectAndCompute": V.Native(detect)})


def found(array):
    """What the stand-in detector finds: the pixels."""
    return ([V.Obj("keypoint", {"pt": (x, x)}) for x in array.data.flat],
            V.elementwise(lambda x: x, array))


def shown(v):
    """Keypoints as plain values."""
    if v is None:
        return None
    return ([p for k in v[0] for p in k.attrs["pt"]], v[1])


def coo_matrix(l, args, kw):
    (data, (row, col)) = args[0]
    kw = dict(zip(("shape", "dtype"), args[1:]), **kw)
    row, col = V.to_arr(row), V.to_arr(col)
    shape = kw.get("shape")
    if shape is None:
        if not row.data.size:
            raise V.Unsupported("matrix without shape")
        shape = (max(row.data) + 1, max(col.data) + 1)
    o = V.Obj("coo_matrix", {"data": V.to_arr(data), "row": row, "col": col,
                             "_shape": tuple(shape)})

    def eliminate():
        keep = [k for k, x in enumerate(o.attrs["data"].data)
                if isinstance(x, V.Obj) or x]
        for n in ("data", "row", "col"):
            a = o.attrs[n]
            o.attrs[n] = V.Arr(a.data[keep].copy(), (len(keep),), a.kind)
    o.attrs["eliminate_zeros"] = V.Native(eliminate)
    return o


# -- detection ----------------------------------------------------------------------------
def pixels(name, dims):
    """Values between 0 and 255, as numbers that may not be whole."""
    a = V.obj_array(dims)
    for k in itertools.product(*map(range, dims)):
        a[k] = T.sym(name + "".join(map(str, k)), (), ("range", 0.0, 255.0))
    return V.Arr(a, dims, "f")


def whole(a):
    return V.Arr(V.elementwise(lambda x: T.app("trunc", x), a).data, a.dims, "i")


class Detector:
    """A detector that records what it is given."""

    def __init__(self, keypoints, descriptors):
        self.found = (keypoints, descriptors)
        self.made, self.given = [], []

    def cls(self):
        return V.Obj("method", {"create": V.Native(self.create)})

    def create(self, *args, **kw):
        self.made.append([*args, kw])
        return V.Obj("detector", {"detectAndCompute": V.Native(self.detect)})

    def detect(self, image, mask, **kw):
        self.given.append((image, mask))
        return self.found


def detection(ctx):
    r = "R8-detection"
    kps = keypoints(V.sym_array("kp", (2, 2)).data)
    D = V.sym_array("desc", (2, 3), "unit")
    D.data[1] = [0.0] * 3
    array, mask = pixels("px", (2, 3)), pixels("m", (2, 3))
    flags = V.Arr(V.to_arr([[True, False, True], [False, True, True]]).data, (2, 3), "b")
    ints = V.Arr(V.to_arr([[1, 0, 1], [0, 1, 1]]).data, (2, 3), "i")
    for m, none, root, kw in itertools.product(
            (None, "float", "bool"), (False, True), (False, True),
            ({}, {"nfeatures": 7, "sigma": 1.5})):
        given = {None: None, "float": mask, "bool": flags}[m]
        asked = {None: None, "float": whole(mask), "bool": ints}[m]

        def body(l):
            d = Detector([] if none else kps, None if none else D.copy())
            k, v = call(l, "detect_keypoints", array.copy(), method=d.cls(),
                        **({} if m is None else {"mask": given.copy()}),
                        **({"root": True} if root else {}), **kw)
            return list(l.iterate(k)) == d.found[0], v, d.given, d.made
        want = D
        if root:
            want = V.Arr(V.obj_array((2, 3)), (2, 3), "f")
            t = add(add(D.data[0, 0], D.data[0, 1]), D.data[0, 2])
            for j in range(3):
                want.data[0, j] = T.app("sqrt", div(D.data[0, j], add(t, 1e-7)))
                want.data[1, j] = 0.0
        C.check(ctx, r, f"detect_keypoints[mask={m},found={not none},root={root},{kw}]",
                lift(ctx, body), (True, None if none else want, [(whole(array), asked)],
                                  [[kw]]), tol=1e-6)

    def default(l):
        d = Detector(kps, D)
        for n in ("cv2.SIFT.create", "cv2.SIFT_create"):
            l.ext[n] = lambda l, a, k: d.create(*a, **k)
        return call(l, "detect_keypoints", array.copy(), contrastThreshold=0.1)[1], d.made
    C.check(ctx, r, "detect_keypoints[default method]", lift(ctx, default),
            (D, [[{"contrastThreshold": 0.1}]]))
    # what a matcher detects keypoints in
    one = V.to_arr([[1, 0], [1, 1]])
    every = [V.to_arr([[1, 0], [k, 1]]) for k in range(3)]
    for clahe, two, masks, keep in itertools.product(
            (None, False, True, {"clipLimit": 4.0}), (False, True),
            (None, "one", "each", "tuple"), (False, True)):
        def body(l):
            q = Sequence(l, gray=two)
            o = q.make(**({} if clahe is None else {"clahe": clahe}))
            kw = {"masks": {"one": one, "each": every, "tuple": tuple(every)}[masks]
                  } if masks else {}
            if keep:
                kw["clear_images"] = False
            method(l, o, "build_keypoints", nfeatures=5, **kw)
            return (q.detected, q.equalizers, q.detectors, len(q.files.files),
                    [shown(k) for k in l.iterate(l.getattr(o, "keypoints"))],
                    [k.attrs["array"] for k in q.images])
        dims = (2, 2) if two else (2, 2, 3)
        px = [gray(V.sym_array(f"I{k}", dims, "posint"), bool(clahe)) for k in range(3)]
        ms = {"one": [one] * 3, None: [None] * 3}.get(masks, every)
        C.check(ctx, r, f"KeypointMatcher.build_keypoints[clahe={clahe},{'2' if two else '3'}"
                f"-dimensional images,masks={masks},clear_images={not keep}]",
                lift(ctx, body),
                (list(zip(px, ms)), [] if not clahe else [[{} if clahe is True else clahe]],
                 [[{"nfeatures": 5}]] * 3, 0, [shown(found(p)) for p in px],
                 ["cached" if keep else None] * 3))


# -- build_keypoints ----------------------------------------------------------------------
def gray(a, clahe=False):
    out = V.obj_array((2, 2))
    for i, j in itertools.product(range(2), repeat=2):
        x = a.data[i, j]
        if a.ndim == 3:
            x = T.app("trunc", div(add(add(x[0], x[1]), x[2]), 3))
        out[i, j] = mul(3, x) if clahe else x
    return V.Arr(out, (2, 2), "i")


def asked(**kw):
    """Options that differ from the documented defaults."""
    return {k: v for k, v in kw.items() if v is not None and v is not False}


def build_keypoints(ctx):
    r = "R2-keypoints"
    old = (["old"], V.sym_array("Dold", (1, 3)))
    stored = (["file"], V.sym_array("Dfile", (1, 3)))
    old, stored = (([V.Obj("keypoint", {"pt": (m, m)})], d[1])
                   for m, d in ((1.5, old), (2.5, stored)))
    for memory, file, path, over, clear, parallel in itertools.product(
            (False, True), repeat=6):
        if file and not path or clear and not path:
            continue

        def body(l):
            q = Sequence(l)
            o = q.make()
            if memory:
                l.setattr(o, "keypoints", [None, old, None])
            if file:
                q.files.files["/out/img1.pkl"] = stored
            method(l, o, "build_keypoints", **asked(
                path="/out" if path else None, overwrite=over, clear_keypoints=clear,
                parallel=2 if parallel else False))
            return ([shown(k) for k in l.iterate(l.getattr(o, "keypoints"))],
                    {k: shown(v) for k, v in q.files.files.items()},
                    [k.attrs["array"] for k in q.images] if not parallel else None)
        px = [V.sym_array(f"I{k}", (2, 2, 3), "posint") for k in range(3)]
        new = [shown(found(gray(p))) for p in px]
        end = list(new)
        if not over and (memory or file):
            end[1] = shown(old if memory else stored)
        files = {}
        if path:
            files = {f"/out/img{k}.pkl": end[k] for k in range(3)}
            if file and not over:
                files["/out/img1.pkl"] = shown(stored)
        fresh = [True, over or not (memory or file), True]
        C.check(ctx, "R6-parallel" if parallel else r,
                f"KeypointMatcher.build_keypoints[{'parallel,' if parallel else ''}memory={memory},file={file},"
                f"path={path},overwrite={over},clear={clear}]", lift(ctx, body),
                ([None] * 3 if clear else end, files,
                 [None if f else "cached" for f in fresh] if not parallel else None))


# -- build_matches ------------------------------------------------------------------------
def pairs(n, off, maxdt=None, seq=None, imgs=None):
    out = []
    for i, j in itertools.combinations(range(n), 2):
        near = maxdt is None and seq is None
        near = near or maxdt is not None and off[j] - off[i] <= maxdt
        near = near or seq is not None and j - i in seq
        if near and (imgs is None or i in imgs or j in imgs):
            out.append((i, j))
    return out


class Matching(Sequence):
    """A sequence of images with two keypoints each; the first matches the second."""

    def __init__(self, l, n=3, off=OFF, **kw):
        super().__init__(l, n, off, **kw)
        self.D = [V.sym_array(f"D{k}", (2, 3)) for k in range(n)]
        self.kps = [(keypoints(points(k).data), d) for k, d in enumerate(self.D)]

    def image(self, d):
        ks = [k for k, x in enumerate(self.D) if x.data[0, 0] is d.data[0, 0]]
        if len(ks) != 1:
            raise V.Unsupported("descriptors")
        return ks[0]

    def matcher(self):
        def knn(a, b, k=1, mask=None, **kw):
            i, j = self.image(a), self.image(b)
            self.matched.append((i, j))
            return tuple(tuple([dmatch(q, 1 - q, dist(i, j, q)), dmatch(
                q, q, mul(dist(i, j, q), T.sym(f"w{i}{j}{q}", (), ("range", *WEIGHT[q]))))][:k])
                for q in range(2))
        return V.Obj("matcher", {"knnMatch": V.Native(knn)})

    def show(self, m):
        """A match as plain values."""
        if not isinstance(m, V.Obj) or not isinstance(m.cls, object):
            return m
        cams = m.attrs.get("cams")
        out = [getattr(m.cls, "name", m.cls)]
        out.append(None if cams is None else [
            next((k for k, c in enumerate(self.cams) if c is x), None)
            for x in self.l.iterate(cams)])
        for a in ("uvs", "weights", "xys"):
            try:
                v = self.l.getattr(m, a)
            except Exception:
                v = None
            out.append(list(self.l.iterate(v)) if a != "weights" and v is not None else v)
        return out

    def shown(self, o):
        """Shape, rows, columns and values of the matches."""
        m = self.l.getattr(o, "matches")
        if m is None:
            return None
        at = lambda a: list(self.l.iterate(self.l.getattr(m, a)))
        shape = m.attrs.get("_shape")
        entries = [((int(i), int(j)), self.show(x)) for i, j, x in zip(
            at("row"), at("col"), at("data"))]
        return [list(shape), *(list(e) for e in sorted(entries, key=lambda e: e[0]))]


NEAR = (((0, 1), (20, 21)), ((18, 19), (10, 11)), ((11, 12), (50, 51)))
WEIGHT = ((1.5, 1.7), (1.8, 2.0))
FILTER = {False: {"max_distance": 5.0}, True: {"min_weight": 1.75}}


def points(k):
    """Keypoints of an image. The first matches the second of the next, which is farther
    from it than FILTER allows, the second matches the first of the next, nearer."""
    if k >= len(NEAR):
        return V.sym_array(f"u{k}", (2, 2))
    a = V.to_arr([[T.sym(f"u{k}{q}{c}", (), ("range", *map(float, NEAR[k][q])))
                   for c in range(2)] for q in range(2)])
    a.kind = "f"
    return a


def old(l, q, i, j):
    """Matches of two images written before."""
    return l.construct(l.prog.cls("Matches"), [], {
        "cams": (q.cams[i], q.cams[j]), "uvs": was_uv(i, j), "weights": was_w(i, j)})


def was_uv(i, j):
    """Image coordinates in the files, the second of which passes the filter."""
    out = [V.to_arr([[T.sym(f"old{i}{j}{k}{q}{c}", (), ("range", 30.0 * (1 - q) * k, 1.0 +
                      30.0 * (1 - q) * k)) for c in range(2)] for q in range(2)])
           for k in range(2)]
    for a in out:
        a.kind = "f"
    return out


def was_w(i, j):
    w = V.to_arr([T.sym(f"oldw{i}{j}{q}", (), ("range", *WEIGHT[q])) for q in range(2)])
    w.kind = "f"
    return w


def was(i, j, cls="Matches", cams=True, ks=(0, 1)):
    ks = list(ks)
    uv = [V.Arr(a.data[ks].copy(), (len(ks), 2), "f") for a in was_uv(i, j)]
    w = was_w(i, j)
    return [cls, [i, j] if cams else [None] * 2, uv,
            V.Arr(w.data[ks].copy(), (len(ks),), "f"), seen(i, j, uv, cls)]


def dist(i, j, q):
    return T.sym(f"d{i}{j}{q}", (), "pos")


def match(i, j, weights=False, cls="Matches", cams=True, ks=(0, 1), uvs=True):
    """The match of two images, as `Matching.show` gives."""
    out = [cls, [i, j] if cams else [None] * 2]
    ks = list(ks)
    uv = [V.Arr(points(i).data[ks].copy(), (len(ks), 2), "f"),
          V.Arr(points(j).data[[1 - k for k in ks]].copy(), (len(ks), 2), "f")]
    out.append(uv if uvs else None)
    w = V.to_arr([T.sym(f"w{i}{j}{q}", (), ("range", *WEIGHT[q])) for q in ks])
    w.kind = "f"
    out.append(w if weights else None)
    out.append(seen(i, j, uv, cls))
    return out


def seen(i, j, uv, cls):
    if cls == "Matches":
        return None
    return [V.Arr(directions(k, p), p.dims, "f") for k, p in zip((i, j), uv)]


def directions(k, uv):
    """Camera coordinates of image coordinates, for the ideal camera of an image."""
    c = camera(k)
    out = V.obj_array((uv.dims[0], 2))
    for q, row in enumerate(uv.data):
        out[q] = [div(sub(a, add(div(s, 2), cc)), f) for a, s, cc, f in zip(
            row, (40, 30), c.c.data, c.f.data)]
    return out


def build_matches(ctx):
    r = "R3-pairs"
    for n, off in ((3, OFF), (5, OFF), (4, (0.0, 1.0, 1.0, 3.0)), (1, OFF)):
        for maxdt, seq, imgs in itertools.product(
                (None, 1.5, 1.0, 3.0, 0.0), (None, (1,), (2, 1), (3, -1, 0), ()),
                (None, (0,), (1, 3), ())):
            if n != 5 and (seq in ((2, 1), ()) or imgs == () or maxdt == 3.0):
                continue

            def body(l):
                q = Matching(l, n, off)
                o = q.make()
                l.setattr(o, "keypoints", list(q.kps))
                method(l, o, "build_matches", maxdt=maxdt, seq=seq, imgs=imgs,
                       matcher=q.matcher())
                return q.shown(o), q.matched
            p = pairs(n, off, maxdt, seq, imgs)
            C.check(ctx, r, f"KeypointMatcher.build_matches[{n} images at {off[:n]},"
                    f"maxdt={maxdt},seq={seq},imgs={imgs}]", lift(ctx, body),
                    ([[n, n], *([ij, match(*ij)] for ij in p)], p))


def build_files(ctx):
    """Matches of three images, (0, 1) and (1, 2) of them; (1, 2) perhaps written before."""
    r = "R4-files"
    types = (None, "Matches", "RotationMatchesXY", "RotationMatchesXYZ")
    cases = [(*c, False, None, None, False, keep) for *c, keep in itertools.product(
        (False, True), repeat=5)]
    cases += [(path, path, False, False, weights, mtype, ratio, parallel, keep)
              for path in (False, True) for weights in (False, True)
              for mtype in types for ratio in (None, 1) for parallel in (False, 2)
              for keep in (False, True)]
    cases += [(True, exists, over, clear, True, "RotationMatchesXY", 1, 2, keep)
              for exists, over, clear, keep in itertools.product((False, True), repeat=4)]
    for case in cases:
        path, exists, over, clear, weights, mtype, ratio, parallel, keep = case
        if (exists or clear) and not path or (
                ratio and not weights and mtype and "Rotation" in mtype):
            continue

        def body(l):
            q = Matching(l)
            o = q.make()
            if keep == parallel:
                # all keypoints are in files
                for k in range(3):
                    q.files.files[f"/kp/img{k}.pkl"] = q.kps[k]
            else:
                l.setattr(o, "keypoints", [q.kps[0], None, q.kps[2]])
                q.files.files["/kp/img1.pkl"] = q.kps[1]
            if clear:
                l.setattr(o, "matches", "before")
            if exists:
                q.files.put("/out/img1-img2.pkl", old(l, q, 1, 2))
            kw = asked(
                path="/out" if path else None, overwrite=over, clear_matches=clear,
                weights=weights, mtype=l.prog.cls(mtype) and l.wrap(l.prog.cls(mtype))
                if mtype else None, parallel=parallel,
                filter=FILTER[weights] if ratio else None)
            if keep:
                kw["clear_keypoints"] = False
            method(l, o, "build_matches", seq=(1,), keypoints_path="/kp",
                   matcher=q.matcher(), **kw)
            kp = l.getattr(o, "keypoints")
            clears = not (parallel and keep)
            files = {f: q.show(v) for f, v in q.files.files.items() if "/out" in f}
            return (q.shown(o), files, sorted(set(q.matched)) if not parallel else None,
                    [shown(k) for k in l.iterate(kp)] if clears else None)
        cls = mtype or "Matches"
        # one of the two points of each match passes the filter
        ks = (1,) if ratio else (0, 1)
        redo = over or not exists
        got = [((0, 1), match(0, 1, weights, cls, ks=ks)),
               ((1, 2), match(1, 2, weights, cls, ks=ks) if redo else
                was(1, 2, cls, ks=ks))]
        files = {}
        if path:
            files["/out/img0-img1.pkl"] = match(0, 1, weights, cams=False)
            files["/out/img1-img2.pkl"] = match(
                1, 2, weights, cams=False) if redo else was(1, 2, cams=False)
        kps = [(keypoints(points(k).data), V.sym_array(f"D{k}", (2, 3))) for k in range(3)]
        C.check(ctx, "R6-parallel" if parallel else r,
                f"KeypointMatcher.build_matches[parallel={parallel},path={path},"
                f"exists={exists},overwrite={over},clear_matches={clear},"
                f"clear_keypoints={not keep},weights={weights},mtype={mtype},"
                f"filter={bool(ratio)}]", lift(ctx, body),
                (None if clear else [[3, 3], *(list(g) for g in got)], files,
                 ([(0, 1)] + [(1, 2)] * redo) if not parallel else None,
                 [shown(k) if keep else None for k in kps]
                 if not (parallel and keep) else None))


# -- matches ------------------------------------------------------------------------------
PAIRS = ((0, 1), (0, 2), (1, 2), (1, 4), (3, 4))    # of five images
SIZES = (2, 1, 0, 2, 1)                             # of the matches of each pair


def matched(l, q, cls="Matches", weights=True, pairs=PAIRS, sizes=SIZES, n=5):
    """A matcher with matches of some pairs of images, of different sizes."""
    o = q.make()
    data = []
    for (i, j), s in zip(pairs, sizes):
        _, _, uv, w, _ = match(i, j, weights, ks=range(s))
        data.append(l.construct(l.prog.cls(cls), [], {
            "cams": (q.cams[i], q.cams[j]), "uvs": uv, "weights": w}))
    a = V.Arr(V.obj_array((len(data),)), (len(data),), "o")
    a.data[:] = data
    col = lambda k: V.to_arr([p[k] for p in pairs])
    l.setattr(o, "matches", coo_matrix(l, [(a, (col(0), col(1)))], {"shape": (n, n)}))
    l.setattr(o, "keypoints", list(q.kps))
    return o


def changes(ctx):
    r = "R5-changes"
    for a, b, clear, parallel in itertools.product(
            ("Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"),
            ("Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"),
            (False, True), (False, 2)):
        def body(l):
            q = Matching(l, 5)
            o = matched(l, q, a)
            method(l, o, "convert_matches", l.wrap(l.prog.cls(b)), clear_uvs=clear,
                   parallel=parallel)
            return q.shown(o)
        want = [[p, match(*p, True, b, ks=range(s), uvs=not (
            clear and b in ("RotationMatchesXY", "RotationMatchesXYZ")))]
                for p, s in zip(PAIRS, SIZES)]
        C.check(ctx, "R6-parallel" if parallel else r, f"KeypointMatcher.convert_matches["
                f"{a} to {b},clear_uvs={clear},parallel={parallel}]", lift(ctx, body),
                [[5, 5], *want])
    for kw, clear, parallel in itertools.product(
            ({}, {"min_weight": 1.75}, {"n_best": 1}, {"max_distance": 5.0}),
            (False, True), (False, 2)):
        p2, s2 = ((0, 1), (1, 2), (0, 2)), (2, 2, 1)

        def body(l):
            q = Matching(l, 3)
            o = matched(l, q, pairs=p2, sizes=s2, n=3)
            method(l, o, "filter_matches", clear_weights=clear, parallel=parallel, **kw)
            return q.shown(o)
        ks = [(0, 1), (0, 1), (0,)]
        if "max_distance" in kw:
            # the first point of image 0 is far from the second of image 2
            ks = [(1,), (1,), ()]
        elif kw:
            ks = [(1,), (1,), () if "min_weight" in kw else (0,)]
        want = sorted([[p, match(*p, not clear, ks=k)] for p, k in zip(p2, ks)],
                      key=lambda e: e[0])
        C.check(ctx, "R6-parallel" if parallel else r, f"KeypointMatcher.filter_matches["
                f"{kw},clear_weights={clear},parallel={parallel}]", lift(ctx, body),
                [[3, 3], *want])
    for imgs in ((0,), (2,), (4,), (1, 3), (0, 1), 0, 3, (), (0, 4), (2, 4)):
        ks = {imgs} if isinstance(imgs, int) else set(imgs)
        left = [(p, s) for p, s in zip(PAIRS, SIZES) if not ks & set(p)]
        keep = sorted({i for p, _ in left for i in p})

        def body(l):
            q = Matching(l, 5)
            o = matched(l, q)
            method(l, o, "drop_images", imgs)
            name = lambda xs, ys: [next((k for k, y in enumerate(ys) if y is x), None)
                                   for x in l.iterate(xs)]
            return (q.shown(o), name(l.getattr(o, "images"), q.images),
                    name(l.getattr(o, "keypoints"), q.kps))
        want = [[(keep.index(p[0]), keep.index(p[1])), match(*p, True, ks=range(s))]
                for p, s in left]
        if not left:
            continue
        C.check(ctx, r, f"KeypointMatcher.drop_images[{imgs}]", lift(ctx, body),
                ([[len(keep)] * 2, *want], keep, keep))

    def body(l):
        o = matched(l, Matching(l, 5))
        return [method(l, o, "matches_per_image"), method(l, o, "images_per_image")]
    C.check(ctx, r, "KeypointMatcher.matches_per_image,images_per_image", lift(ctx, body), [
        V.to_arr([sum(s for p, s in zip(PAIRS, SIZES) if k in p) for k in range(5)]),
        V.to_arr([sum(s > 0 for p, s in zip(PAIRS, SIZES) if k in p) for k in range(5)])])
    for ps, least in itertools.product(
            (PAIRS, ((0, 1), (0, 2), (0, 3), (2, 3), (2, 4), (3, 4)),
             ((0, 1), (1, 2), (2, 3), (3, 4))), (None, 0, 1, 2, 3, 5)):
        def body(l):
            o = matched(l, Matching(l, 5), pairs=ps, sizes=(1,) * len(ps))
            return method(l, o, "match_breaks", *([] if least is None else [least]))
        n = [sum(p[0] == k for p in ps) for k in range(4)]
        want = [k for k in range(4) if n[k] < min(max(least or 0, 1), 4 - k)]
        C.check(ctx, r, f"KeypointMatcher.match_breaks[{ps},min_matches={least}]",
                lift(ctx, body), V.to_arr(want) if want else V.Arr(
                    V.obj_array((0,)), (0,), "i"))


def rejected(ctx):
    r = "R7-rejected"

    def case(name, body, exc="ValueError"):
        C.check_raises(ctx, r, f"KeypointMatcher.{name}", lift(ctx, body), exc)
    case("__init__[images out of order]", lambda l: Sequence(
        l, 3, (0.0, 2.0, 1.0)).make())
    for f in ("build_keypoints", "build_matches"):
        def same(l):
            q = Matching(l, names=["a", "b/a", "c"])
            o = q.make()
            l.setattr(o, "keypoints", list(q.kps))
            method(l, o, f)
        case(f"{f}[images of the same basename]", same)

        def file(l):
            q = Matching(l)
            q.files.files["/out"] = 1
            o = q.make()
            l.setattr(o, "keypoints", list(q.kps))
            method(l, o, f, path="/out")
        case(f"{f}[path is a file]", file)

        def clear(l):
            q = Matching(l)
            o = q.make()
            l.setattr(o, "keypoints", list(q.kps))
            method(l, o, f, **{"clear_keypoints" if f == "build_keypoints" else
                               "clear_matches": True})
        case(f"{f}[path is required]", clear)
    for k in (0, 2):
        def missing(l):
            q = Matching(l)
            o = q.make()
            l.setattr(o, "keypoints", [x if i != k else None for i, x in enumerate(q.kps)])
            method(l, o, "build_matches", matcher=q.matcher())
        case(f"build_matches[no keypoints of image {k} nor path]", missing)

    def none(l):
        q = Matching(l)
        method(l, q.make(), "build_matches", matcher=q.matcher())
    case("build_matches[no keypoints nor path]", none)
    for f, args in (("convert_matches", ["Matches"]), ("filter_matches", []),
                    ("drop_images", [0]), ("matches_per_image", []),
                    ("images_per_image", []), ("match_breaks", [])):
        case(f"{f}[no matches]", lambda l: method(l, Sequence(l).make(), f, *[
            l.wrap(l.prog.cls(a)) if isinstance(a, str) else a for a in args]))
