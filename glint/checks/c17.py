"""C17: camera optimization reads and writes camera parameters consistently."""
import itertools
import math

from ..spec import camera as S
from ..spec import grid as SG
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from ..vg.diff import diff
from ..vg.interp import PyError
from .c06 import lift, method

add, mul, sub, div = T.add, T.mul, T.sub, T.div
NAMES = ("xyz", "viewdir", "imgsz", "f", "c", "k", "p")
START = (0, 3, 6, 8, 10, 12, 18, 20)
INF = float("inf")


def run(ctx):
    ctx.rule("R1-selection", "parameters are selected by name and index, with bounds "
             "expanded, defaulted or open as documented")
    ctx.rule("R2-parameters", "parameters are those of the groups, then those of the "
             "cameras, each in camera order, starting at the (mean) camera values within "
             "the bounds; setting cameras writes exactly these")
    ctx.rule("R3-model", "observations and predictions follow the controls in order, for "
             "any selection; residuals are weighted by weights of mean one; predicting "
             "leaves the cameras as they were")
    ctx.rule("R4-structure", "scale factors and the sparsity structure follow the order "
             "of parameters and observations, and mark exactly the dependencies")
    ctx.rule("R5-fit", "the optimizer gets the residuals, starting values, scales and "
             "structure of the selected observations, and the result is returned in "
             "parameter order with the cameras left as they were")
    ctx.rule("R7-orientations", "the orientation of observer cameras minimizes the "
             "distances of matched rays and of anchors to their orientation, with the "
             "exact gradient, and leaves the cameras as they were")
    ctx.rule("R6-rejected", "ambiguous or incomplete problems are rejected")
    selection(ctx)
    singles(ctx)
    configs = problems()
    for nm, pb in configs.items():
        parameters(ctx, nm, pb)
        model(ctx, nm, pb)
        structure(ctx, nm, pb)
        fits(ctx, nm, pb)
    iterated(ctx)
    mixed(ctx)
    orientations(ctx)
    rejected(ctx)
    scales(ctx)
    ctx.need("R1-selection", 3)
    ctx.need("R2-parameters", 3)


# -- stand-ins for lmfit ------------------------------------------------------------------
def parameters_class(l, args=(), kwargs=None):
    o = V.Obj("Parameters", {})
    items = {}

    def add_(*a, **k):
        names = ("name", "value", "vary", "min", "max")
        d = dict(vary=True, min=-INF, max=INF)
        d.update(zip(names, a))
        d.update(k)
        if "name" not in d:
            raise PyError("TypeError: missing argument name")
        items[d.pop("name")] = d
    o.attrs["add"] = V.Native(add_)
    o.attrs["valuesdict"] = V.Native(
        lambda: {n: d["value"] for n, d in items.items()})
    o.items = items
    return o


def setup(l):
    l.ext["lmfit.Parameters"] = l.ext["lmfit.parameter.Parameters"] = parameters_class


def lifted(ctx, body):
    def go(l):
        setup(l)
        return body(l)
    return lift(ctx, go)


# -- selection ----------------------------------------------------------------------------
def selection(ctx):
    r = "R1-selection"
    a, b = T.sym("lower"), T.sym("upper")
    D = V.sym_array("D", (20, 2))
    nan = float("nan")
    # parameters -> [(position, min, max)]
    cases = [
        ("none", None, []), ("empty", {}, []),
        ("one", {"viewdir": 0}, [(3, None, None)]),
        ("last", {"viewdir": 2}, [(5, None, None)]),
        ("all", {"k": True}, [(i, None, None) for i in range(12, 18)]),
        ("not", {"k": False, "p": True}, [(18, None, None), (19, None, None)]),
        ("list", {"viewdir": [0, 1]}, [(3, None, None), (4, None, None)]),
        ("array", {"f": ("ix", (0, 1))}, [(8, None, None), (9, None, None)]),
        ("unordered", {"k": ([3, 0], [a, b], 10)}, [(12, b, 10), (15, a, 10)]),
        ("several", {"f": True, "xyz": [0, 2]}, [
            (0, None, None), (2, None, None), (8, None, None), (9, None, None)]),
        ("every", {n: True for n in NAMES}, [(i, None, None) for i in range(20)]),
        ("bounds", {"viewdir": ([0, 1], -INF, 180)}, [(3, -INF, 180), (4, -INF, 180)]),
        ("bounds each", {"viewdir": ([0, 1], -INF, [a, b])},
         [(3, -INF, a), (4, -INF, b)]),
        ("bounds of all", {"c": (True, a, b)}, [(10, a, b), (11, a, b)]),
        ("bounds of one", {"p": (1, a, b)}, [(19, a, b)]),
        ("no lower", {"xyz": (2, None, b)}, [(2, None, b)]),
        ("nan upper", {"xyz": (True, a, nan)}, [(i, a, None) for i in range(3)]),
        ("some nan", {"xyz": ([1, 2], [nan, a], b)}, [(1, None, b), (2, a, b)]),
        ("imgsz", {"imgsz": True, "f": (0, a, b)}, [
            (6, None, None), (7, None, None), (8, a, b)]),
    ]

    def arg(v):
        if isinstance(v, tuple) and len(v) and v[0] == "ix":
            x = V.to_arr(list(v[1]))
            x.kind = "i"
            return x
        if isinstance(v, tuple):
            return tuple(list(x) if isinstance(x, list) else x for x in v)
        return list(v) if isinstance(v, list) else v
    for nm, params, want in cases:
        for default in (False, True):
            mask = [False] * 20
            bounds = [[D.data[i, 0], D.data[i, 1]] if default else [-INF, INF]
                      for i in range(20)]
            for i, lo, hi in want:
                mask[i] = True
                if lo is not None:
                    bounds[i][0] = lo
                if hi is not None:
                    bounds[i][1] = hi

            def body(l):
                p = None if params is None else {k: arg(v) for k, v in params.items()}
                kw = {"default_bounds": D.copy()} if default else {}
                return l.call(l.getattr(V.ClassRef(l.prog.cls("Cameras")),
                                        "parse_params"), [p], kw)
            C.check(ctx, r, f"Cameras.parse_params[{nm}{',defaults' if default else ''}]",
                    lifted(ctx, body), (V.to_arr(mask), V.to_arr(bounds)))


# -- problems -----------------------------------------------------------------------------
class Problem:
    """Cameras, controls (as lists of camera indices) and parameters."""

    def __init__(self, cams, controls, cam_params=None, group_indices=None,
                 group_params=None, weights=None):
        self.cams = [S.Cam(d, prefix=f"c{i}", moved=False) for i, d in enumerate(cams)]
        for i, c in enumerate(self.cams):
            c.sz = SG.farr(40, 30, kind="i")
            c.f = S.vec(f"c{i}f", 2, ("range", 40, 60))
            c.c = S.vec(f"c{i}c", 2, ("range", -1, 1))
            c.vd = S.vec(f"c{i}vd", 3, ("range", -4, 4))
        self.controls = controls        # (camera index, number of points)
        self.U = [V.sym_array(f"U{i}", (n, 2)) for i, (_, n) in enumerate(controls)]
        self.X = [V.sym_array(f"P{i}", (n, 3)) for i, (_, n) in enumerate(controls)]
        self.cam_params, self.group_indices = cam_params, group_indices
        self.group_params = group_params
        self.weights = weights
        n = len(cams)
        gi = [range(n)] if group_indices is None else group_indices
        gp = [{}] * len(gi) if group_params is None else group_params
        cp = [{}] * n if cam_params is None else cam_params
        self.groups = [list(x) for x in gi]
        # columns: (camera indices, position in the camera vector)
        self.columns = []
        for g, p in zip(self.groups, gp):
            self.columns += [(g, i) for i in positions(p)]
        for j, p in enumerate(cp):
            self.columns += [([j], i) for i in positions(p)]
        self.size = sum(n for _, n in controls)

    def build(self, l, **kw):
        self.built = cams = [c.build(l) for c in self.cams]
        controls = [l.construct(l.prog.cls("Points"), [], dict(
            cam=cams[j], uv=u.copy(), xyz=x.copy()))
            for (j, n), u, x in zip(self.controls, self.U, self.X)]
        d = dict(cams=list(cams), controls=controls)
        for k in ("cam_params", "group_indices", "group_params"):
            v = getattr(self, k)
            if v is not None:
                d[k] = [dict(x) if isinstance(x, dict) else x for x in v]
        if self.weights is not None:
            d["weights"] = V.to_arr(list(self.weights))
        d.setdefault("scales", False)
        d.setdefault("sparsity", False)
        d.update(kw)
        return l.construct(l.prog.cls("Cameras"), [], d)

    def vectors(self, values=None):
        out = [list(c.vector().data) for c in self.cams]
        if values is not None:
            for (g, i), v in zip(self.columns, values):
                for j in g:
                    out[j][i] = v
        return out

    def state(self, l):
        return [[x for n in NAMES for x in V.to_arr(l.getattr(c, n)).data]
                for c in self.built]

    def predicted(self, values=None):
        out = []
        for (j, n), x in zip(self.controls, self.X):
            cam = copy_cam(self.cams[j], self.vectors(values)[j])
            out += [S.project(cam, list(x.data[k]))[0] for k in range(n)]
        return out

    def observed(self):
        return [list(row) for u in self.U for row in u.data]

    def residuals(self, values=None):
        ws = [1] * self.size
        if self.weights is not None:
            s = 0
            for w in self.weights:
                s = add(s, w)
            ws = [div(mul(w, self.size), s) for w in self.weights]
        return [[mul(w, sub(a, b)) for a, b in zip(p, o)]
                for p, o, w in zip(self.predicted(values), self.observed(), ws)]

    def values(self, name="v"):
        """New parameter values, each in the range of its parameter."""
        out = []
        for m, (g, i) in enumerate(self.columns):
            v = self.cams[g[0]].vector().data[i]
            dom = v.attr[2] if isinstance(v, T.Node) and v.op == "sym" else (
                ("range", 30, 50) if i in (6, 7) else ("range", -0.001, 0.001))
            out.append(T.sym(f"{name}{m}", (), "pos" if dom == "posint" else dom))
        return out


def copy_cam(cam, vector):
    c = S.Cam("none", moved=False)
    a = V.to_arr(vector)
    for n, lo, hi in zip(("xyz", "vd", "sz", "f", "c", "k", "p"), START, START[1:]):
        x = V.Arr(a.data[lo:hi].copy(), (hi - lo,), "f")
        setattr(c, n, x)
    return c


def positions(params):
    out = []
    for n, v in params.items():
        i = NAMES.index(n)
        if isinstance(v, tuple):
            v = v[0]
        if v is True:
            out += range(START[i], START[i + 1])
        elif v is not None and v is not False:
            out += [START[i] + k for k in (v if isinstance(v, list) else [v])]
    return sorted(out)


def problems():
    a, b = T.sym("lower", (), ("range", -9, -6)), T.sym("upper", (), ("range", 6, 9))
    w = [T.sym(f"w{i}", (), "pos") for i in range(3)]
    return {
        "one camera": Problem(["none"], [(0, 3)], [{"viewdir": True}]),
        "bounds": Problem(["none"], [(0, 2)], [{"viewdir": ([0, 2], a, b), "f": True,
                                                "c": (0, -1, None)}]),
        "two cameras": Problem(["none", "none"], [(1, 1), (0, 2)], [
            {"viewdir": [0, 1]}, {"viewdir": 2, "xyz": True}], weights=w),
        "a group of three": Problem(["none"] * 3, [(1, 1), (0, 1), (2, 1)], None, None,
                                    [{"viewdir": [2], "xyz": 0}]),
        "bounds by camera": Problem(["none", "none"], [(0, 1), (1, 1)], [
            {"k": 0}, {"k": [1, 3], "c": True, "p": 1}]),
        "a group": Problem(["full", "none"], [(0, 2), (1, 1)],
                           group_params=[{"f": True, "k": [0, 1]}]),
        "a group and cameras": Problem(
            ["none", "none", "none"], [(2, 1), (0, 1), (1, 1)],
            [{"viewdir": True}, {"viewdir": 0}, {"xyz": 1}], [[0, 2]],
            [{"f": 0, "c": (True, -2, [2, 3])}], weights=w),
        "two groups": Problem(
            ["none", "none", "none"], [(0, 1), (1, 1), (2, 1), (0, 1)],
            [{}, {"xyz": [0, 2]}, {}], [[2, 0], [1]],
            [{"c": True}, {"p": 0, "viewdir": 1}]),
        "overlapping groups": Problem(
            ["none", "none", "none"], [(0, 1), (1, 1), (2, 1)],
            None, [[0, 1], [1, 2]], [{"f": 0}, {"f": 1, "k": 2}]),
    }


def parameters(ctx, nm, pb):
    r = "R2-parameters"
    n = len(pb.columns)
    big = T.sym("anything")

    def start(l):
        o = pb.build(l)
        p = l.getattr(o, "params")
        items = list(p.items.values())
        return [d["value"] for d in items], [d["vary"] for d in items]
    base = pb.vectors()
    want = []
    for g, i in pb.columns:
        s = 0
        for j in g:
            s = add(s, base[j][i])
        want.append(div(s, len(g)))
    C.check(ctx, r, f"Cameras.params[{nm}]", lifted(ctx, start), (want, [True] * n))

    def bounds(l):
        o = pb.build(l)
        return [[d["min"], d["max"]] for d in l.getattr(o, "params").items.values()]

    def default(l):
        pb.build(l)
        f = l.getattr(V.ClassRef(l.prog.cls("Cameras")), "camera_bounds")
        return [l.call(f, [c], {}) for c in pb.built]
    limits = [default_bounds(c) for c in pb.cams]
    C.check(ctx, r, f"Cameras.camera_bounds[{nm}]", lifted(ctx, default),
            [V.to_arr(b) for b in limits])
    C.check(ctx, r, f"Cameras.params[bounds,{nm}]", lifted(ctx, bounds),
            expected_bounds(pb, limits))
    del big
    new = pb.values()

    def written(l, how):
        o = pb.build(l)
        v = V.to_arr(list(new))
        if how == "list":
            v = list(new)
        if how == "parameters":
            p = parameters_class(l)
            names = list(l.getattr(o, "params").items)
            for k, x in zip(names, new):
                l.call(l.getattr(p, "add"), [], dict(name=k, value=x))
            v = p
        method(l, o, "set_cameras", v)
        return pb.state(l)
    for how in ("array", "list", "parameters"):
        C.check(ctx, r, f"Cameras.set_cameras[{how},{nm}]", lifted(
            ctx, lambda l: written(l, how)), pb.vectors(new))
    other = pb.values("o")

    def reset(l, save):
        o = pb.build(l)
        method(l, o, "set_cameras", V.to_arr(list(new)), **(
            {"save": True} if save else {}))
        method(l, o, "set_cameras", V.to_arr(list(other)))
        method(l, o, "reset_cameras")
        first = pb.state(l)
        method(l, o, "set_cameras", V.to_arr(list(other)))
        method(l, o, "reset_cameras")
        return first, pb.state(l)
    for save in (False, True):
        w = pb.vectors(new if save else None)
        C.check(ctx, r, f"Cameras.reset_cameras[{'saved,' if save else ''}{nm}]", lifted(
            ctx, lambda l: reset(l, save)), (w, w))

    def again(l):
        o = pb.build(l)
        method(l, o, "set_cameras", V.to_arr(list(new)))
        method(l, o, "update_params")
        return [d["value"] for d in l.getattr(o, "params").items.values()]
    # where groups and cameras set the same element, the camera decides
    C.check(ctx, r, f"Cameras.update_params[{nm}]", lifted(ctx, again), new)


def singles(ctx):
    """One camera, control, group or set of parameters instead of a sequence."""
    r = "R2-parameters"
    pbs = {
        "camera": Problem(["none"], [(0, 3)], [{"viewdir": [1], "f": 0}]),
        "group": Problem(["none", "none"], [(0, 1), (1, 2)], [{"viewdir": 0}, {}],
                         [[0, 1]], [{"f": True}]),
        "group of one": Problem(["none", "none"], [(0, 1), (1, 2)], [{}, {"xyz": 2}],
                                [[1]], [{"f": True}]),
        "three in two": Problem(["none"] * 3, [(0, 1), (1, 2), (2, 1)], None,
                                [[1, 2]], [{"c": 1}]),
    }
    for nm, pb in pbs.items():
        new = pb.values()

        def body(l):
            kw = {}
            if nm == "camera":
                pb.build(l)
                kw = {"cams": pb.built[0], "cam_params": dict(pb.cam_params[0])}
                kw["controls"] = l.construct(l.prog.cls("Points"), [], dict(
                    cam=pb.built[0], uv=pb.U[0].copy(), xyz=pb.X[0].copy()))
                o = l.construct(l.prog.cls("Cameras"), [], dict(
                    kw, scales=False, sparsity=False))
            else:
                gi = list(pb.group_indices[0])
                o = pb.build(l, group_indices=gi[0] if nm == "group of one" else gi,
                             group_params=dict(pb.group_params[0]))
            p = [d["value"] for d in l.getattr(o, "params").items.values()]
            uv = (method(l, o, "observed"), method(l, o, "predicted", params=V.to_arr(
                list(new))))
            method(l, o, "set_cameras", V.to_arr(list(new)))
            return (p, pb.state(l)) + uv
        base = pb.vectors()
        want = []
        for g, i in pb.columns:
            t = 0
            for j in g:
                t = add(t, base[j][i])
            want.append(div(t, len(g)))
        C.check(ctx, r, f"Cameras[single {nm}]", lifted(ctx, body), (
            want, pb.vectors(new), V.to_arr(pb.observed()), V.to_arr(pb.predicted(new))))
    pb = pbs["group"]
    for nm, kw, want in (("default", {}, [True, True]),
                         ("none", {"scales": False, "sparsity": False}, [False, False]),
                         ("scales", {"sparsity": False}, [True, False]),
                         ("sparsity", {"scales": False}, [False, True])):
        def has(l):
            o = pb.build(l)
            o = l.construct(l.prog.cls("Cameras"), [], dict(
                cams=list(pb.built), controls=list(l.getattr(o, "controls")),
                group_params=[{"f": True}], **kw))
            return [l.getattr(o, x) is not None for x in ("scales", "sparsity")]
        C.check(ctx, "R4-structure", f"Cameras[structure {nm}]", lifted(ctx, has), want)


def default_bounds(cam):
    f = div(add(cam.f.data[0], cam.f.data[1]), 2)
    k, p = div(f, 4000), div(f, 40000)
    neg = lambda x: mul(-1, x)
    half = lambda x: div(x, 2)
    w, h = cam.sz.data
    return [[-INF, INF]] * 6 + [[0, INF]] * 4 + [
        [neg(half(w)), half(w)], [neg(half(h)), half(h)], [neg(k), k],
        [neg(half(k)), half(k)], [neg(half(k)), half(k)], [neg(k), k], [neg(k), k],
        [neg(k), k], [neg(p), p], [neg(p), p]]


def given_bounds(params):
    """{position: (min, max)} as given, None where not given."""
    out = {}
    for n, v in params.items():
        pos = positions({n: v})
        if isinstance(v, tuple):
            sel = v[0] if isinstance(v[0], list) else None
            order = [START[NAMES.index(n)] + k for k in sel] if sel else pos
            lo, hi = (list(x) if isinstance(x, list) else [x] * len(order)
                      for x in v[1:])
            out.update({i: (a, b) for i, a, b in zip(order, lo, hi)})
        else:
            out.update({i: (None, None) for i in pos})
    return out


def expected_bounds(pb, limits):
    cp = pb.cam_params or [{}] * len(pb.cams)
    gp = pb.group_params or [{}] * len(pb.groups)
    own = [given_bounds(p) for p in cp]
    out = []

    def of(j, i):
        lo, hi = own[j].get(i, (None, None))
        return (limits[j][i][0] if lo is None else lo,
                limits[j][i][1] if hi is None else hi)
    for g, p in zip(pb.groups, gp):
        b = given_bounds(p)
        for i in positions(p):
            lo, hi = b[i]
            if lo is None:
                lo = of(g[0], i)[0]
                for j in g[1:]:
                    lo = T.app("max2", lo, of(j, i)[0])
            if hi is None:
                hi = of(g[0], i)[1]
                for j in g[1:]:
                    hi = T.app("min2", hi, of(j, i)[1])
            out.append([lo, hi])
    for j, p in enumerate(cp):
        out += [list(of(j, i)) for i in positions(p)]
    return out


SELECT = (("all", slice(None), None), ("some", [2, 0], (2, 0)),
          ("slice", slice(1, None), "from one"))


def chosen(pb, ks):
    n = pb.size
    return list(range(n)) if ks is None else list(range(1, n)) if ks == "from one" \
        else [k for k in ks if k < n]


def index_of(pb, index, ks):
    if isinstance(index, list):
        a = V.to_arr(chosen(pb, ks))
        a.kind = "i"
        return a
    return index


def model(ctx, nm, pb):
    r = "R3-model"
    new = pb.values()
    for snm, index, ks in SELECT:
        rows = chosen(pb, ks)
        ix = index_of(pb, index, ks)
        kw = {} if snm == "all" else {"index": ix}

        def take(m):
            return V.to_arr([m[k] for k in rows])
        C.check(ctx, r, f"Cameras.observed[{snm},{nm}]", lifted(
            ctx, lambda l: method(l, pb.build(l), "observed", **kw)),
            take(pb.observed()))
        for given in (False, True):
            def call(l, what):
                o = pb.build(l)
                p = {"params": V.to_arr(list(new))} if given else {}
                return method(l, o, what, **p, **kw), pb.state(l)
            tag = f"[{snm},{'values,' if given else ''}{nm}]"
            vs = new if given else None
            st = pb.vectors()
            C.check(ctx, r, f"Cameras.predicted{tag}", lifted(
                ctx, lambda l: call(l, "predicted")), (take(pb.predicted(vs)), st))
            res = pb.residuals(vs)
            C.check(ctx, r, f"Cameras.residuals{tag}", lifted(
                ctx, lambda l: call(l, "residuals")), (take(res), st))
            C.check(ctx, r, f"Cameras.errors{tag}", lifted(
                ctx, lambda l: call(l, "errors")), (V.to_arr([
                    T.sqrt(add(mul(res[k][0], res[k][0]), mul(res[k][1], res[k][1])))
                    for k in rows]), st))
    C.check(ctx, r, f"Cameras.size[{nm}]", lifted(
        ctx, lambda l: l.getattr(pb.build(l), "size")), pb.size)
    if pb.weights is not None:
        s = 0
        for w in pb.weights:
            s = add(s, w)
        want = V.to_arr([[div(mul(w, pb.size), s)] for w in pb.weights])
        C.check(ctx, r, f"Cameras.weights[{nm}]", lifted(
            ctx, lambda l: l.getattr(pb.build(l), "weights")), want, loose=True)


def incidence(pb):
    rows = []
    for j, n in pb.controls:
        rows += [[1 if j in g else 0 for g, _ in pb.columns]] * (2 * n)
    return rows


def structure(ctx, nm, pb):
    r = "R4-structure"
    C.check(ctx, r, f"Cameras.sparsity[{nm}]", lifted(ctx, lambda l: l.getattr(
        pb.build(l, sparsity=True), "sparsity")), V.to_arr(incidence(pb)))

    def ratio(l):
        """Scale factors, and those of each camera."""
        o = pb.build(l, scales=True)
        f = l.getattr(V.ClassRef(l.prog.cls("Cameras")), "camera_scales")
        each = [l.call(f, [c, l.getattr(o, "controls")], {}) for c in pb.built]
        want = []
        for g, i in pb.columns:
            s = 0
            for j in g:
                s = add(s, each[j].data[i])
            want.append(div(s, len(g)))
        return V.elementwise(div, l.getattr(o, "scales"), V.to_arr(want))
    C.check(ctx, r, f"Cameras.scales[{nm}]", lifted(ctx, ratio),
            V.to_arr([1.0] * len(pb.columns)))


# -- fitting ------------------------------------------------------------------------------
def fits(ctx, nm, pb):
    r = "R5-fit"
    found = pb.values("found")
    tried = pb.values("tried")
    for snm, index, ks in SELECT:
        rows = chosen(pb, ks)
        ix = index_of(pb, index, ks)
        kw = {} if snm == "all" else {"index": ix}
        for mth, opts in (("least_squares", {}), ("leastsq", {}), ("nelder", {}),
                          ("least_squares", {"x_scale": 7, "jac_sparsity": 9,
                                             "nan_policy": "raise"})):
            def body(l):
                seen = {}

                def minimize(l, args, kwargs):
                    d = dict(zip(("fcn", "params", "method"), args))
                    d.update(kwargs)
                    start = [x["value"] for x in d["params"].items.values()]
                    p = parameters_class(l)
                    q = parameters_class(l)
                    for k, x, y in zip(d["params"].items, tried, found):
                        p.items[k] = dict(value=x)
                        q.items[k] = dict(value=y)
                    res = l.call(d["fcn"], [p], dict(d.get("kws") or {}))
                    seen.update(start=start, residuals=res, method=d.get("method"))
                    for k in ("x_scale", "jac_sparsity", "diag", "nan_policy"):
                        seen[k] = d.get(k)
                    return V.Obj("MinimizerResult", {
                        "success": True, "params": q, "message": ""})
                l.ext["lmfit.minimize"] = l.ext["lmfit.minimizer.minimize"] = \
                    lambda l, args, kwargs: minimize(l, args, kwargs)
                o = pb.build(l, scales=True, sparsity=True)
                sc = l.getattr(o, "scales")
                out = method(l, o, "fit", method=mth, **opts, **kw)
                one = None if mth == "nelder" or "x_scale" in opts else \
                    V.elementwise(div, seen["diag" if mth == "leastsq" else "x_scale"],
                                  sc)
                return (out, pb.state(l), seen["start"], seen["residuals"],
                        seen["method"], one, seen["jac_sparsity"]
                        if mth == "least_squares" else None, seen["nan_policy"])
            inc = incidence(pb)
            sp = V.to_arr([inc[2 * k + e] for k in rows for e in (0, 1)])
            base = pb.vectors()
            start = []
            for g, i in pb.columns:
                s = 0
                for j in g:
                    s = add(s, base[j][i])
                start.append(div(s, len(g)))
            res = pb.residuals(tried)
            tag = f"[{mth},{snm},{'options,' if opts else ''}{nm}]"
            C.check(ctx, r, f"Cameras.fit{tag}", lifted(ctx, body), (
                V.to_arr(found), base, start, V.to_arr([res[k] for k in rows]), mth,
                None if mth == "nelder" or opts else V.full((len(found),), 1.0),
                None if mth != "least_squares" else 9 if opts else sp,
                "raise" if opts else "omit"))


def minimizer(seen, found, success=True, error=False):
    """A stand-in for the optimizer that records calls and finds `found(names)`."""
    def minimize(l, args, kwargs):
        d = dict(zip(("fcn", "params", "method"), args))
        d.update(kwargs)
        items = d["params"].items
        seen.append((list(items), [x["value"] for x in items.values()], d))
        q = parameters_class(l)
        for k, y in zip(items, found(len(seen), items)):
            q.items[k] = dict(value=y)
        d["residuals"] = l.call(d["fcn"], [q], dict(d.get("kws") or {}))
        if error:
            raise PyError("RuntimeError")
        return V.Obj("MinimizerResult", {"success": success, "params": q,
                                         "message": ""})
    return minimize


def iterated(ctx):
    """Fits in steps: each starts where the one before ended."""
    r = "R5-fit"
    steps = [[{"viewdir": True}, {"viewdir": 0}], [{"viewdir": True, "f": True}, {}]]
    gsteps = [[{"c": True}], [{"c": True, "k": 0}]]

    def problem():
        return Problem(["none", "none"], [(1, 1), (0, 2)],
                       [{"viewdir": True}, {"viewdir": 0}], [[0, 1]], [{"c": True}],
                       weights=[T.sym(f"w{i}", (), "pos") for i in range(3)])
    for nm, kw in (("cameras", {"cam_params": steps}), ("groups", {
            "group_params": gsteps}), ("both", {"cam_params": steps,
                                                "group_params": gsteps})):
        pb = problem()
        n = max(len(v) for v in kw.values())
        stages = []
        for i in range(n):
            stages.append(Problem(["none", "none"], pb.controls, kw.get(
                "cam_params", [pb.cam_params] * n)[i], pb.group_indices, kw.get(
                    "group_params", [pb.group_params] * n)[i]))
        stages.append(pb)
        found = [s.values(f"step{i}_") for i, s in enumerate(stages)]

        def body(l):
            seen = []
            fn = minimizer(seen, lambda k, items: found[k - 1])
            l.ext["lmfit.minimize"] = l.ext["lmfit.minimizer.minimize"] = fn
            o = pb.build(l)
            out = method(l, o, "fit", index=ix_(l, (2, 0)), **{
                k: [[dict(p) for p in s] for s in v] for k, v in kw.items()})
            now = [d["value"] for d in l.getattr(o, "params").items.values()]
            return out, [s[1] for s in seen], [s[2]["residuals"] for s in seen], [
                s[2].get("kws", {}).get("index", "absent") for s in seen], \
                pb.state(l), now
        starts, differences = [], []
        at = pb.vectors()
        total = add(add(*pb.weights[:2]), pb.weights[2])
        for i, s in enumerate(stages):
            starts.append(mean_values(s, at))
            for (g, k), v in zip(s.columns, found[i]):
                for j in g:
                    at[j][k] = v
            rows = []
            for (j, count), x, u in zip(pb.controls, pb.X, pb.U):
                for k in range(count):
                    uv = S.project(copy_cam(pb.cams[j], at[j]), list(x.data[k]))[0]
                    w = div(mul(3, pb.weights[len(rows)]), total)
                    rows.append([mul(w, sub(a, b)) for a, b in zip(uv, u.data[k])])
            differences.append(V.to_arr([rows[2], rows[0]]))
        for mth, opts in itertools.product(("least_squares", "leastsq"), (
                {}, {"scales": True}, {"sparsity": True})):

            def options(l):
                seen = []
                fn = minimizer(seen, lambda k, items: found[k - 1])
                l.ext["lmfit.minimize"] = l.ext["lmfit.minimizer.minimize"] = fn
                o = pb.build(l, **opts)
                method(l, o, "fit", method=mth, **{
                    k: [[dict(p) for p in s] for s in v] for k, v in kw.items()})
                out = []
                for names, _, d in seen:
                    one = []
                    for k in ("x_scale", "diag", "jac_sparsity"):
                        a = d[k] if k in d else "absent"
                        one.append(list(a.dims) if isinstance(a, V.Arr) else a)
                    out.append(one)
                return out
            want = [[[len(s.columns)] if opts.get("scales") and mth == "least_squares" else
                     "absent",
                     [len(s.columns)] if opts.get("scales") and mth == "leastsq" else
                     "absent",
                     [len(incidence(s)), len(s.columns)]
                     if opts.get("sparsity") and mth == "least_squares" else "absent"]
                    for s in stages]
            C.check(ctx, r, f"Cameras.fit[options in steps of {nm},{mth},{opts}]",
                    lifted(ctx, options), want)
        base = pb.vectors()
        C.check(ctx, r, f"Cameras.fit[in steps of {nm}]", lifted(ctx, body), (
            V.to_arr(found[-1]), starts, differences, [SG.farr(2, 0, kind="i")] * (n + 1), base,
            mean_values(pb, base)))
    for success, full, error in ((False, False, False), (True, True, False),
                                 (False, True, False), (True, False, True)):
        pb = problem()
        new = pb.values("found")
        before = pb.values("before")

        def body(l):
            seen = []
            fn = minimizer(seen, lambda k, items: new, success, error)
            l.ext["lmfit.minimize"] = l.ext["lmfit.minimizer.minimize"] = fn
            o = pb.build(l)
            method(l, o, "set_cameras", V.to_arr(list(before)))
            out = None
            try:
                out = method(l, o, "fit", full=full)
            except Exception as e:
                if not error or type(e).__name__ != "PyError":
                    raise
            if full:
                out = [d["value"] for d in l.getattr(out, "params").items.values()], \
                    l.getattr(out, "success")
            return out, pb.state(l)
        tag = ",".join(n for n, b in (("failed", not success), ("full", full),
                                      ("error", error)) if b)
        out = lifted(ctx, body)
        if error:
            out.l.raises.clear()
        C.check(ctx, r, f"Cameras.fit[{tag}]", out, (
            (list(new), success) if full else None, pb.vectors(before)))


def ix_(l, ks):
    a = V.to_arr(list(ks))
    a.kind = "i"
    return a


def mean_values(pb, vectors):
    out = []
    for g, i in pb.columns:
        s = 0
        for j in g:
            s = add(s, vectors[j][i])
        out.append(div(s, len(g)))
    return out


def mixed(ctx):
    """Points and matches of several cameras together."""
    cams = [S.Cam("none", prefix=f"c{i}", moved=False) for i in range(3)]
    for i, c in enumerate(cams):
        c.sz = SG.farr(40, 30, kind="i")
        c.f = S.vec(f"c{i}f", 2, ("range", 40, 60))
        c.c = S.vec(f"c{i}c", 2, ("range", -1, 1))
        c.vd = S.vec(f"c{i}vd", 3, ("range", -4, 4))
        c.xyz = S.vec("X", 3)
    U, X = V.sym_array("U", (2, 2)), V.sym_array("P", (2, 3))
    m = [V.sym_array(f"m{k}", (2, 2), ("range", 12, 24)) for k in (0, 1)]

    def build(l, form, **kw):
        built = [c.build(l) for c in cams]
        pts = l.construct(l.prog.cls("Points"), [], dict(
            cam=built[1], uv=U.copy(), xyz=X.copy()))
        mt = l.construct(l.prog.cls(form), [], dict(
            cams=(built[2], built[0]), uvs=[x.copy() for x in m]))
        d = dict(cams=list(built), controls=[mt, pts], cam_params=[
            {"viewdir": True}, {"xyz": 0}, {}], group_indices=[[1, 2]],
            group_params=[{"viewdir": [1, 2]}], scales=False, sparsity=False)
        d.update(kw)
        return l.construct(l.prog.cls("Cameras"), [], d)
    # columns: group viewdir of 1 and 2, viewdir of 0, xyz of 1
    uses = [{1, 2}] * 2 + [{0}] * 3 + [{1}]
    inc = [[1 if u & used else 0 for u in uses] for used in ({0, 2}, {1})
           for _ in range(4)]
    # a match with a camera that is not optimized
    for first in (False, True):
        def outside(l):
            built = [c.build(l) for c in cams]
            two = (built[2], built[0]) if first else (built[0], built[2])
            mt = l.construct(l.prog.cls("Matches"), [], dict(
                cams=two, uvs=[x.copy() for x in m]))
            pts = l.construct(l.prog.cls("Points"), [], dict(
                cam=built[1], uv=U.copy(), xyz=X.copy()))
            o = l.construct(l.prog.cls("Cameras"), [], dict(
                cams=built[:2], controls=[mt, pts], cam_params=[
                    {"viewdir": True}, {"xyz": 0}], scales=False))
            return l.getattr(o, "sparsity")
        C.check(ctx, "R4-structure", "Cameras.sparsity[matches with another camera"
                f"{' first' * first}]", lifted(ctx, outside),
                V.to_arr([[1, 1, 1, 0]] * 4 + [[0, 0, 0, 1]] * 4))
    for form in ("Matches", "RotationMatches"):
        C.check(ctx, "R4-structure", f"Cameras.sparsity[points and {form}]", lifted(
            ctx, lambda l: l.getattr(build(l, form, sparsity=True), "sparsity")),
            V.to_arr(inc))
        want = [S.project(cams[2], S.unproject(cams[0], list(m[1].data[k])), True)[0]
                for k in (0, 1)] + [S.project(cams[1], list(X.data[k]))[0]
                                    for k in (0, 1)]
        obs = [list(m[0].data[k]) for k in (0, 1)] + [list(U.data[k]) for k in (0, 1)]
        for snm, index in (("all", None), ("some", (3, 1))):
            rows = range(4) if index is None else index

            def call(l, what):
                kw = {} if index is None else {"index": ix_(l, index)}
                return method(l, build(l, form), what, **kw)
            C.check(ctx, "R3-model", f"Cameras.predicted[{snm},points and {form}]",
                    lifted(ctx, lambda l: call(l, "predicted")),
                    V.to_arr([want[k] for k in rows]))
            C.check(ctx, "R3-model", f"Cameras.observed[{snm},points and {form}]",
                    lifted(ctx, lambda l: call(l, "observed")),
                    V.to_arr([obs[k] for k in rows]))


def orientations(ctx):
    """ObserverCameras: what is minimized, and its gradient."""
    r = "R7-orientations"
    cams = [S.Cam("none", prefix=f"o{i}", moved=False) for i in range(3)]
    for i, c in enumerate(cams):
        c.sz = SG.farr(40, 30, kind="i")
        c.f = S.vec(f"o{i}f", 2, ("range", 40, 60))
        c.c = S.vec(f"o{i}c", 2, ("range", -1, 1))
        c.vd = S.vec(f"o{i}vd", 3, ("range", -4, 4))
        c.xyz = S.vec("X", 3)
    pairs = ((0, 1), (0, 2))
    uvs = [[V.sym_array(f"u{i}{j}{k}", (2, 2), ("range", 12, 24)) for k in (0, 1)]
           for i, j in pairs]
    at = [S.vec(f"at{i}", 3, ("range", -4, 4)) for i in range(3)]
    weight = T.sym("weight", (), "pos")

    def rays(cam, vd, uv):
        out = []
        for row in uv.data:
            n = S.unproject(cam, list(row))
            xy = [div(sub(row[i], add(cam.c.data[i], div(cam.sz.data[i], 2))),
                      cam.f.data[i]) for i in range(2)]
            norm = T.sqrt(add(add(mul(xy[0], xy[0]), mul(xy[1], xy[1])), 1))
            R = S.rotation(*vd)
            del n
            out.append([div(add(add(mul(xy[0], R[0][j]), mul(xy[1], R[1][j])), R[2][j]),
                            norm) for j in range(3)])
        return out
    for anm, anchors in (("first", None), ("others", [1, 2]), ("no", [])):
        wrt = [[T.sym(f"at{i}{k}", (), ("range", -4, 4)) for k in range(3)]
               for i in range(3)]
        anchored = [0] if anchors is None else anchors
        objective = 0
        grad = [[0] * 3 for _ in range(3)]
        for i in anchored:
            for k in range(3):
                d = sub(wrt[i][k], cams[i].vd.data[k])
                objective = add(objective, mul(div(weight, 2), mul(d, d)))
                grad[i][k] = add(grad[i][k], mul(weight, d))
        for (i, j), uv in zip(pairs, uvs):
            a, b = rays(cams[i], wrt[i], uv[0]), rays(cams[j], wrt[j], uv[1])
            for p, q in zip(a, b):
                for x, y in zip(p, q):
                    d = sub(x, y)
                    objective = add(objective, T.app("abs", d))
                    sg = T.app("sign", d)
                    for k in range(3):
                        grad[i][k] = add(grad[i][k], mul(sg, diff(x, wrt[i][k])))
                        grad[j][k] = sub(grad[j][k], mul(sg, diff(y, wrt[j][k])))

        def body(l):
            built = [c.build(l) for c in cams]
            images = [V.Obj("Image", {"cam": c, "path": f"/{i}.jpg", "datetime": T.sym(
                f"t{i}", (), "datetime")}) for i, c in enumerate(built)]
            ms = [l.construct(l.prog.cls("RotationMatchesXYZ"), [], dict(
                cams=(built[i], built[j]), uvs=[u.copy() for u in uv]))
                for (i, j), uv in zip(pairs, uvs)]
            coo = V.Obj("coo_matrix", {"data": list(ms), "row": ix_(l, [p[0] for p in
                                                                       pairs]),
                                       "col": ix_(l, [p[1] for p in pairs])})
            l.native[KM] = lambda l, args, kw, self_: None
            o = l.construct(l.prog.cls("ObserverCameras"), [], dict(
                observer=V.Obj("Observer", {"images": images}), matches=coo,
                **({} if anchors is None else {"anchors": list(anchors)})))
            got = {}

            def minimize(l, args, kwargs):
                d = dict(zip(("fun", "x0"), args))
                d.update(kwargs)
                x = V.to_arr([x for row in wrt for x in row])
                out = l.iterate(l.call(d["fun"], [x], {}))
                got.update(x0=d["x0"], f=out[0], g=out[1], jac=d.get("jac"))
                return V.Obj("OptimizeResult", {"success": True, "message": ""})
            l.ext["scipy.optimize.minimize"] = minimize
            method(l, o, "fit", anchor_weight=weight)
            return (got["x0"], got["jac"], got["f"], got["g"],
                    [l.getattr(c, "viewdir") for c in built])
        start = [c.vd for c in cams]
        C.check(ctx, r, f"ObserverCameras.fit[{anm} anchors]", lifted(ctx, body), (
            V.to_arr([x for v in start for x in v.data]), True, objective,
            V.to_arr([x for row in grad for x in row]), start), tol=1e-7)


KM = "glimpse.optimize.KeypointMatcher.__init__"


def rejected(ctx):
    r = "R6-rejected"

    def given(*args, **kw):
        def body(l):
            pb = Problem(*args, **kw)
            return pb.build(l)
        return lifted(ctx, body)
    C.check_raises(ctx, r, "Cameras[no controls]", given(
        ["none"], [], [{"viewdir": True}]))
    C.check_raises(ctx, r, "Cameras[camera without control]", given(
        ["none", "none"], [(0, 2)], [{"viewdir": True}, {"viewdir": 0}]))
    C.check_raises(ctx, r, "Cameras[grouped camera without control]", given(
        ["none", "none"], [(0, 2)], None, [[0, 1]], [{"c": True}]))
    C.check_raises(ctx, r, "Cameras[camera of two groups without control]", given(
        ["none", "none"], [(0, 2)], None, [[0, 1], [1]], [{"viewdir": True}, {}]))
    C.check_raises(ctx, r, "Cameras[camera of a second group without control]", given(
        ["none", "none"], [(0, 2)], None, [[0], [1]], [{}, {"viewdir": True}]))
    C.check(ctx, r, "Cameras[camera without control or parameters]", lifted(
        ctx, lambda l: Problem(["none", "none"], [(0, 2)], None, [[0], [1]], [
            {"viewdir": 0}, {}]).build(l).cls.name), "Cameras")
    C.check_raises(ctx, r, "Cameras[groups that select the same parameter]", given(
        ["none"] * 3, [(0, 1), (1, 1), (2, 1)], None, [[0, 1], [1, 2]],
        [{"f": 0}, {"f": 0}]))
    C.check_raises(ctx, r, "Cameras[last groups select the same parameter]", given(
        ["none"] * 3, [(0, 1), (1, 1), (2, 1)], None, [[0, 1], [2], [1, 2]],
        [{"f": 0, "k": 1}, {"f": 1}, {"k": [0, 1]}]))

    def sizes(params, group=(0, 1)):
        def body(l):
            pb = Problem(["none"] * 3, [(0, 1), (1, 1), (2, 1)], None, [list(group)],
                         [params])
            pb.cams[1].sz = SG.farr(40, 31, kind="i")
            pb.build(l)
            return pb.size
        return lifted(ctx, body)
    for p in ({"f": True}, {"c": 0}, {"k": True, "f": 1}):
        C.check_raises(ctx, r, f"Cameras[group of image sizes,{'+'.join(p)}]", sizes(p))
    C.check(ctx, r, "Cameras[group of image sizes,k]", sizes({"k": True}), 3)
    C.check(ctx, r, "Cameras[group of equal image sizes,f]", sizes({"f": True}, (0, 2)),
            3)
    # controls of other cameras are left out

    for k in (0, 1):
        def partly(l):
            a, b, other = [c.build(l) for c in Problem(
                ["none"] * 3, [(0, 1), (1, 1)], [{}] * 3).cams]
            l.setattr(b, "xyz", l.getattr(a, "xyz"))
            two = [a, b] if k == 0 else [b, a]
            u = V.sym_array("um", (3, 2), ("range", 12, 24))
            controls = [l.construct(l.prog.cls("Matches"), [], dict(
                cams=two, uvs=[u.copy(), u.copy()])), l.construct(
                    l.prog.cls("Points"), [], dict(cam=other, uv=u.copy(),
                                                   xyz=V.sym_array("xm", (3, 3))))]
            o = l.construct(l.prog.cls("Cameras"), [], dict(
                cams=[a], controls=controls, cam_params=[{"viewdir": True}]))
            return [c is controls[0] for c in l.iterate(l.getattr(o, "controls"))]
        C.check(ctx, r, f"Cameras[matches with the camera at {k}]", lifted(ctx, partly),
                [True])

    def pruned(l):
        pb = Problem(["none", "none"], [(0, 2), (1, 1)], [{"viewdir": True}, {}])
        cams = [c.build(l) for c in pb.cams]
        controls = [l.construct(l.prog.cls("Points"), [], dict(
            cam=cams[j], uv=u.copy(), xyz=x.copy()))
            for (j, n), u, x in zip(pb.controls, pb.U, pb.X)]
        o = l.construct(l.prog.cls("Cameras"), [], dict(
            cams=cams[0], controls=controls, cam_params={"viewdir": True}))
        kept = l.iterate(l.getattr(o, "controls"))
        return [k is controls[0] for k in kept], l.getattr(o, "size")
    C.check(ctx, r, "Cameras[controls of other cameras]", lifted(ctx, pruned),
            ([True], 2))


def scales(ctx):
    r = "R4-structure"
    """Exact scale factors: a change of one unit per pixel."""
    cam = S.Cam("full", moved=False)

    def body(l):
        f = l.getattr(V.ClassRef(l.prog.cls("Cameras")), "camera_scales")
        s = l.call(f, [cam.build(l)], {})
        return [s.data[i] for i in (10, 11, 6, 7)]
    C.check(ctx, r, "Cameras.camera_scales[principal point and image size]",
            lifted(ctx, body), [1, 1, 2, 2])
    # degrees per pixel, from the angles of view
    deg = 180 / math.pi
    for nm in ("none", "full"):
        cam = S.Cam(nm, moved=False)
        w, h, f = cam.sz.data[0], cam.sz.data[1], cam.f

        def angles(l):
            fn = l.getattr(V.ClassRef(l.prog.cls("Cameras")), "camera_scales")
            s = l.call(fn, [cam.build(l)], {})
            return [s.data[i] for i in (3, 4)]
        fs = list(f.data) if isinstance(f, V.Arr) else list(f)
        C.check(ctx, r, f"Cameras.camera_scales[view angles,{nm}]", lifted(ctx, angles), [
            div(mul(2 * deg, T.app("arctan", div(n, mul(2, k)))), n)
            for n, k in zip((w, h), fs)])
    # of points at the mean distance from the image center (turned, or moved outward)
    n, f = 400, 600.0
    rad = n / 6 * (math.sqrt(2) + math.log(1 + math.sqrt(2)))

    def roll(l):
        fn = l.getattr(V.ClassRef(l.prog.cls("Cameras")), "camera_scales")
        s = l.call(fn, [l.construct(l.prog.cls("Camera"), [], dict(imgsz=n, f=f))], {})
        return [s.data[i] for i in (5, 8, 9)]
    C.check(ctx, r, "Cameras.camera_scales[roll and focal length]", lifted(ctx, roll),
            [deg / rad, f / rad, f / rad], tol=0.05)
    # the mean distance from the camera to what it is controlled by, over focal length
    cam = S.Cam("none", moved=False)
    X = V.sym_array("P", (5, 3))

    def build(l, parts):
        c, other = cam.build(l), cam.build(l)
        kinds = {
            "points": lambda: l.construct(l.prog.cls("Points"), [], dict(
                cam=c, uv=V.sym_array("U", (2, 2)), xyz=V.Arr(
                    X.data[:2].copy(), (2, 3), "f"))),
            "directions": lambda: l.construct(l.prog.cls("Points"), [], dict(
                cam=c, uv=V.sym_array("U", (2, 2)), directions=True, xyz=V.Arr(
                    X.data[1:3].copy(), (2, 3), "f"))),
            "other": lambda: l.construct(l.prog.cls("Points"), [], dict(
                cam=other, uv=V.sym_array("U", (1, 2)), xyz=V.Arr(
                    X.data[3:4].copy(), (1, 3), "f"))),
            "lines": lambda: l.construct(l.prog.cls("Lines"), [], dict(
                cam=c, uvs=[V.sym_array("L", (2, 2))], xyzs=[V.Arr(
                    X.data[2:4].copy(), (2, 3), "f"), V.Arr(
                        X.data[4:].copy(), (1, 3), "f")]))}
        return c, [kinds[p]() for p in parts]
    for parts, ks in ((("points",), (0, 1)), (("lines",), (2, 3, 4)),
                      (("other", "points", "directions", "lines"), range(5)),
                      (("other", "directions"), ())):
        def position(l):
            fn = l.getattr(V.ClassRef(l.prog.cls("Cameras")), "camera_scales")
            c, controls = build(l, parts)
            s = l.call(fn, [c, controls], {})
            return [s.data[i] for i in range(3)]
        at = list(cam.xyz.data) if isinstance(cam.xyz, V.Arr) else list(cam.xyz)
        total = 0
        for k in ks:
            d = [T.sub(a, b) for a, b in zip(X.data[k], at)]
            total = add(total, T.app("sqrt", add(add(
                mul(d[0], d[0]), mul(d[1], d[1])), mul(d[2], d[2]))))
        fs = list(cam.f.data) if isinstance(cam.f, V.Arr) else list(cam.f)
        want = div(div(total, len(ks)), div(add(*fs), 2)) if ks else 1
        C.check(ctx, r, f"Cameras.camera_scales[position,{','.join(parts)}]",
                lifted(ctx, position), [want] * 3)
