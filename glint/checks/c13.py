"""C13: the particle filter tracks particles as documented."""
import itertools

from ..spec import grid as SG
from ..vg import compare as C
from ..vg import npmod
from ..vg import term as T
from ..vg import value as V
from ..vg.interp import PyError
from .c06 import lift, method

add, mul, sub, div = T.add, T.mul, T.sub, T.div


def run(ctx):
    ctx.rule("R1-moments", "mean, covariance and standard deviation of the particles are "
             "weighted by their weights")
    ctx.rule("R2-weights", "weights start equal and become the product of the "
             "likelihoods of the observations (and of the motion model) at the particles "
             "themselves; they stay as they are where nothing is observed")
    ctx.rule("R3-resampling", "particles are selected in proportion to their weights by "
             "the scheme asked for, together with their weights")
    ctx.rule("R4-datetimes", "tracking times are monotonic, distinct, and each within the "
             "tolerance of an image; images match the nearest time within the tolerance")
    ctx.rule("R5-likelihood", "the log likelihood of a particle is the mean squared "
             "difference between the template and the search tile (gray, normalized, "
             "histogram-matched and high-passed) centered on the particle, over twice "
             "the variance of the observer; absent without an image or where particles "
             "come too close to its edge")
    ctx.rule("R6-track", "particles start at the first observed time, evolve by the time "
             "to the next, are weighted by the images matched to each time and "
             "resampled; their statistics are recorded at every time in between, and "
             "nothing elsewhere; invalid particles are errors")
    moments(ctx)
    weights(ctx)
    tracking(ctx)
    validity(ctx)
    likelihood(ctx)
    tiles(ctx)
    resampling(ctx)
    datetimes(ctx)
    ctx.need("R1-moments", 3)
    ctx.need("R3-resampling", 3)
    ctx.assumptions += ["random draws are free symbols, one per draw",
                        "resampling is decided for 3 particles"]


def tracker(l, observers=(), **kw):
    return l.construct(l.prog.cls("Tracker"), [list(observers)], kw)


def with_state(l, p, w, **kw):
    t = tracker(l, **kw)
    l.setattr(t, "particles", p.copy())
    l.setattr(t, "weights", w.copy())
    return t


def total(xs):
    out = 0
    for x in xs:
        out = add(out, x)
    return out


def moments(ctx):
    r = "R1-moments"
    n = T.dim("n")
    P = V.sym_array("P", (n, 6))
    W = V.sym_array("W", (n,), ("range", 0.1, 3.0))
    w = W.data[0]

    def mean(x):
        return div(T.reduce("rsum", n, mul(w, x)), T.reduce("rsum", n, w))
    m = [mean(x) for x in P.data[0]]
    C.check(ctx, r, "Tracker.particle_mean", lift(
        ctx, lambda l: l.getattr(with_state(l, P, W), "particle_mean")), SG.farr(*m))
    d = [sub(x, y) for x, y in zip(P.data[0], m)]
    C.check(ctx, r, "Tracker.particle_covariance", lift(
        ctx, lambda l: l.getattr(with_state(l, P, W), "particle_covariance")),
        V.to_arr([[mean(mul(x, y)) for x in d] for y in d]))
    C.check(ctx, r, "Tracker.compute_particle_sigma", lift(
        ctx, lambda l: method(l, with_state(l, P, W), "compute_particle_sigma")),
        SG.farr(*[T.sqrt(mean(mul(x, x))) for x in d]))
    M = V.sym_array("M", (6,))
    d = [sub(x, y) for x, y in zip(P.data[0], M.data)]
    C.check(ctx, r, "Tracker.compute_particle_sigma[about a point]", lift(
        ctx, lambda l: method(l, with_state(l, P, W), "compute_particle_sigma",
                              mean=M.copy())),
        SG.farr(*[T.sqrt(mean(mul(x, x))) for x in d]))


def weights(ctx):
    r = "R2-weights"
    n = T.dim("n")
    P = V.sym_array("P", (n, 6))
    W = V.sym_array("W", (n,), ("range", 0.1, 3.0))

    def start(l):
        t = with_state(l, P, W)
        method(l, t, "initialize_weights")
        w = l.getattr(t, "weights")
        return V.elementwise(lambda x: div(x, w.data[0]), w), T.app("lt", 0, w.data[0])
    C.check(ctx, r, "Tracker.initialize_weights", lift(ctx, start),
            (V.full((n,), 1.0), True))
    A = [V.sym_array(f"A{i}", (n,), ("range", 0.0, 3.0)) for i in range(4)]

    def update(imgs, model, some):
        def body(l):
            t = with_state(l, P, W)
            seen = []

            def ll(obs, img):
                seen.append((obs, img))
                x = l.getattr(t, "particles")
                return None if img is None or not some else V.elementwise(
                    lambda a, b: mul(mul(a, img), b), A[obs], x_col(x, 0))
            t.attrs["compute_observer_log_likelihoods"] = V.Native(ll)
            m = None if model is None else V.Obj("motion", {
                "compute_log_likelihoods": V.Native(
                    lambda particles: None if model is False else V.elementwise(
                        lambda a, b: mul(a, b), A[3], x_col(particles, 2)))})
            method(l, t, "update_weights", imgs=list(imgs), motion_model=m)
            return l.getattr(t, "weights"), l.getattr(t, "particles")
        return lift(ctx, body)
    x, z = P.data[0, 0], P.data[0, 2]
    for imgs in ((1, 2, 3), (None, 2, None), (None, None, None), ()):
        for model, mo in (("no motion model", None), ("uninformative motion model", False),
                          ("motion model", True)):
            e = [mul(mul(A[k].data[0], i), x) for k, i in enumerate(imgs)
                 if i is not None]
            if mo:
                e.append(mul(A[3].data[0], z))
            want = V.Arr(V.to_arr([0]).data.copy(), (n,), "f")
            want.data[0] = T.app("exp", T.app("neg", total(e))) if e else W.data[0]
            nm = "".join("-" if i is None else "+" for i in imgs) or "none"
            C.check(ctx, r, f"Tracker.update_weights[images {nm},{model}]",
                    update(imgs, mo, True), (want, P))
    def small(l):
        """Weights of particles where nothing is likely."""
        t = with_state(l, V.full((3, 6), 0.0), SG.farr(1, 1, 1))
        t.attrs["compute_observer_log_likelihoods"] = V.Native(
            lambda obs, img: SG.farr(1e4, 2e4, 5e5))
        method(l, t, "update_weights", imgs=[0])
        return [T.app("lt", 0, x) for x in l.getattr(t, "weights").data]
    C.check(ctx, r, "Tracker.update_weights[unlikely]", lift(ctx, small), [True] * 3)
    C.check(ctx, r, "Tracker.update_weights[nothing visible]", update((1, 2), None, False),
            (W, P))


def x_col(p, k):
    return V.Arr(p.data[:, k], p.dims[:1], p.kind)


def cumulative(w):
    s, out, c = total(w), [], 0
    for x in w:
        c = add(c, x)
        out.append(div(c, s))
    return out


def position(cum, u):
    """Number of cumulative weights below a position."""
    return total([T.ite(T.app("lt", c, u), 1, 0) for c in cum[:-1]])


def chosen(rows, index):
    """Rows (tuples of terms) selected by index terms."""
    out = []
    for k in index:
        r = list(rows[-1])
        for i in range(len(rows) - 2, -1, -1):
            r = [T.ite(T.app("eq", k, i), a, b) for a, b in zip(rows[i], r)]
        out.append(r)
    return out


def pick(scheme, w, d):
    """Selected indices, given the draws made by the scheme (None: other draws)."""
    n = len(w)
    cum = cumulative(w)
    if scheme == "systematic":
        us = [a for what, dims, _, a in d if what == "random" and dims in ((), (1,))]
        if len(d) != 1 or not us:
            return None
        return [position(cum, div(add(i, us[0].data.flat[0]), n)) for i in range(n)]
    if scheme == "stratified":
        us = [a for what, dims, _, a in d if what == "random" and dims == (n,)]
        if len(d) != 1 or not us:
            return None
        return [position(cum, div(add(i, u), n)) for i, u in enumerate(us[0].data)]
    if scheme == "choice":
        if len(d) != 1 or d[0][0] != "choice":
            return None
        return list(d[0][3].data)
    return None


def copies(ctx, r, o, out, scheme, w, n):
    """The number of copies of particles is about that expected, whatever the draws."""
    most = {"systematic": 1, "stratified": 2}.get(scheme)
    ws = V.to_arr(out.value[1]) if isinstance(out.value, tuple) and not isinstance(
        out.value[1], V.Opq) else None
    if most is None or not isinstance(ws, V.Arr) or ws.dims != (n,):
        ctx.oblige(r, o, None, "the draws are not those of the scheme")
        return
    ok = []
    for x in w.data:
        k = total([T.ite(T.app("eq", y, x), 1, 0) for y in ws.data])
        e = div(mul(n, x), total(w.data))
        ok.append(T.app("lt", T.app("abs", sub(k, e)), most))
    C.check(ctx, r, o, out, [True] * n, get=lambda v: ok)


def resampling(ctx):
    r = "R3-resampling"
    n = 3
    P = V.sym_array("P", (n, 6))
    W = V.sym_array("W", (n,), ("range", 0.05, 3.0))
    rows = [tuple(P.data[i]) + (W.data[i],) for i in range(n)]

    def body(way, scheme, w=W):
        def f(l):
            t = with_state(l, P, w, **({"resample_method": scheme} if way else {}))
            method(l, t, "resample_particles", **({} if way else {"method": scheme}))
            return l.getattr(t, "particles"), l.getattr(t, "weights")
        return lift(ctx, f)

    def as_arrays(rs):
        return V.to_arr([list(x[:6]) for x in rs]), SG.farr(*[x[6] for x in rs])
    for scheme in ("systematic", "stratified", "choice"):
        for way in (True, False):
            o = f"Tracker.resample_particles[{scheme}{'' if way else ', as argument'}]"
            out = body(way, scheme)
            if out.failed or out.error:
                C.check(ctx, r, o, out, 0)
                continue
            index = pick(scheme, list(W.data), out.l.draws)
            if index is None:
                copies(ctx, r, o, out, scheme, W, n)
                continue
            C.check(ctx, r, o, out, as_arrays(chosen(rows, index)))
            if scheme == "choice":
                what, dims, (k, replace, p), a = out.l.draws[0]
                s = total(W.data)
                C.check(ctx, r, o + ".probabilities", lift(ctx, lambda l: (
                    k, replace, None if p is None else SG.farr(*p))),
                    (n, True, SG.farr(*[div(x, s) for x in W.data])))
    # residual resampling: whole copies, then draws in proportion to what is left
    for nm, ranges in (("one copy", ((0.98, 1.02), (0.58, 0.62), (0.38, 0.42))),
                       ("two copies", ((0.08, 0.12), (2.0, 2.1), (0.41, 0.44))),
                       ("three particles", ((1.22, 1.24), (1.10, 1.12), (0.66, 0.68)))):
        w = SG.farr(*[T.sym(f"w{i}{nm}", (), ("range", a, b))
                      for i, (a, b) in enumerate(ranges)])
        s = total(w.data)
        e = [div(mul(n, x), s) for x in w.data]
        whole = [int((sum(x) / 2) * n / sum(sum(y) / 2 for y in ranges)) for x in ranges]
        left = [sub(a, b) for a, b in zip(e, whole)]
        first = [i for i, k in enumerate(whole) for _ in range(k)]
        o = f"Tracker.resample_particles[residual,{nm}]"
        out = body(False, "residual", w)
        us = [a for what, dims, _, a in out.l.draws
              if what == "random" and dims == (n - len(first),)]
        if len(us) != 1 and not out.failed and not out.error:
            ctx.oblige(r, o, None, "the draws are not those of the scheme")
            continue
        index = first + [position(cumulative(left), u)
                         for u in (us[0].data if us else [])]
        rs = [tuple(P.data[i]) + (w.data[i],) for i in range(n)]
        C.check(ctx, r, o, out, as_arrays(chosen(rs, index)))
    t = tracker
    C.check(ctx, r, "Tracker.resample_method", lift(
        ctx, lambda l: l.getattr(t(l), "resample_method")), "systematic")
    C.check_raises(ctx, r, "Tracker.resample_particles[unknown]", body(True, "other"))


def stub_observer(times, **kw):
    return V.Obj("observer", {"datetimes": V.to_arr(list(times)), **kw})


def datetimes(ctx):
    r = "R4-datetimes"
    t0 = T.sym("t0", (), "datetime")

    def at(*ks):
        """Times with small unknown offsets, in a known order."""
        return [add(t0, add(k, T.sym(f"dt{k}", (), ("range", 0.0, 0.2)))) for k in ks]
    day = at(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
    tol = T.sym("tol", (), ("range", 0.25, 0.75))


    def obs(*ks):
        return stub_observer([day[k] for k in ks])
    sets = {"one": [(0, 1, 2, 4)], "two": [(0, 2, 4), (1, 2, 3, 4)],
            "apart": [(0, 1), (3, 4, 5)], "same": [(1, 3), (1, 3)],
            "three": [(1, 2), (0, 1), (3, 5)]}
    for nm, ks in sets.items():
        every = sorted(set(k for o in ks for k in o))
        C.check(ctx, r, f"Tracker.datetimes[{nm}]", lift(ctx, lambda l: l.getattr(
            tracker(l, [obs(*k) for k in ks]), "datetimes")),
            SG.farr(*[day[k] for k in every]))
    for nm, ks in sets.items():
        every = sorted(set(k for o in ks for k in o))
        for dn, idx, offset, tl, kw in (
                ("own", every, 0, 0, {}),
                ("all", range(6), 0, 0, {}),
                ("reversed", range(5, -1, -1), 0, 0, {}),
                ("duplicates", [k for k in range(6) for _ in range(1 + k % 2)], 0, 0, {}),
                ("offset", range(6), 0.1, 0, {}),
                ("offset in tolerance", range(6), 0.1, tol, {"maxdt": tol}),
                ("offset beyond tolerance", range(6), 0.4, 0.1, {"maxdt": 0.1}),
                ("negative tolerance", range(6), 0.1, tol,
                 {"maxdt": T.app("neg", tol)}),
                ("one", every[:1], 0, 0, {}), ("one twice", every[:1] * 2, 0, 0, {})):
            off = T.sym(f"off{offset}", (), ("range", offset / 1.5, offset))
            ts = [add(day[k], off) if offset else day[k] for k in idx]
            keep, seen = [], []
            for k, t in zip(idx, ts):
                ok = k in every and (not offset or (kw and dn != "offset beyond "
                                                    "tolerance"))
                if ok and k not in seen:
                    keep.append(t)
                seen.append(k)

            def parse(l):
                return method(l, tracker(l, [obs(*k) for k in ks]), "parse_datetimes",
                              V.to_arr(ts), **kw)
            o = f"Tracker.parse_datetimes[{nm},{dn}]"
            def parse_list(l):
                return method(l, tracker(l, [obs(*k) for k in ks]), "parse_datetimes",
                              list(ts), **kw)
            if len(keep) < 2:
                C.check_raises(ctx, r, o, lift(ctx, parse))
            else:
                C.check(ctx, r, o, lift(ctx, parse), SG.farr(*keep))
                C.check(ctx, r, o + " as a list", lift(ctx, parse_list), SG.farr(*keep))
    for dn, idx in (("not monotonic", (0, 2, 1, 4)), ("turning", (0, 2, 4, 1)),
                    ("late turn", (4, 3, 1, 2))):
        C.check_raises(ctx, r, f"Tracker.parse_datetimes[{dn}]", lift(
            ctx, lambda l: method(l, tracker(l, [obs(0, 1, 2, 3, 4)]), "parse_datetimes",
                                  V.to_arr([day[k] for k in idx]))))
    for nm, ks in sets.items():
        for dn, offset, kw in (("exact", 0, {}), ("before", -0.1, {"maxdt": tol}),
                               ("after", 0.1, {"maxdt": tol}),
                               ("negative tolerance", 0.1, {"maxdt": T.app("neg", tol)}),
                               ("out of tolerance", 0.4, {"maxdt": 0.1}),
                               ("no tolerance", 0.1, {})):
            # times up to 9 days, far from any image at the end
            idx = (0, 1, 2, 3, 4, 9)
            off = T.sym(f"off{offset}", (), ("range", *sorted((offset / 1.5, offset))))
            ts = [add(day[k], off) if offset else day[k] for k in idx]
            inside = not offset or (kw and dn != "out of tolerance")
            want = V.Arr(V.np.full((len(idx), len(ks)), None, dtype=object),
                         (len(idx), len(ks)), "o")
            for i, k in enumerate(idx):
                for j, o in enumerate(ks):
                    if inside and k in o:
                        want.data[i, j] = o.index(k)
            C.check(ctx, r, f"Tracker.match_datetimes[{nm},{dn}]", lift(
                ctx, lambda l: method(l, tracker(l, [obs(*k) for k in ks]),
                                      "match_datetimes", V.to_arr(ts), **kw)), want)


# -- likelihood of observations -------------------------------------------------------
class Scene:
    """An image of term pixels in a known order, seen from straight above."""

    def __init__(self, name, width, height, bands=1, at=(0, 0)):
        self.w, self.h, self.bands, self.at = width, height, bands, at
        self.boxes = []
        v = V.obj_array((height, width) + ((bands,) if bands > 1 else ()))
        for i in V.np.ndindex(*v.shape):
            k = (i[0] * 37 + i[1] * 11 + len(name) * 7) % 101
            # (in the same order in every band)
            k += i[2] * k * k / 100 if bands > 1 else 0
            v[i] = add(k, T.sym(f"{name}{i}", (), ("range", 0.0, 0.25)))
        self.array = V.Arr(v, v.shape, "f")

    def image(self, l, seen, caching=True):
        def read(box=None, cache=True):
            seen.append(cache)
            self.boxes.append(box)
            if box is None:
                return self.array.copy()
            b = [l.number(x) for x in V.to_arr(l.resolve(box)).data.flat]
            return V.Arr(self.array.data[b[1]:b[3], b[0]:b[2]].copy(), (
                b[3] - b[1], b[2] - b[0]) + self.array.dims[2:], "f")

        def inbounds(uv):
            uv = V.to_arr(l.resolve(uv))
            if uv.ndim == 1:
                uv = V.Arr(uv.data.reshape(-1, 2), (uv.dims[0] // 2, 2), uv.kind)
            out = [T.land(*[T.land(T.app("le", 0, x), T.app("le", x, s))
                            for x, s in zip(p, (self.w, self.h))]) for p in uv.data]
            a = V.to_arr(out)
            a.kind = "b"
            return a
        size = SG.farr(self.w, self.h, kind="i")
        return V.Obj("image", {
            "size": size, "read": V.Native(read), "inbounds": V.Native(inbounds),
            "xyz_to_uv": V.Native(self.project)})

    def project(self, p, **kw):
        out = V.Arr(p.data[:, :2].copy(), (p.dims[0], 2), "f")
        for i in V.np.ndindex(*out.data.shape):
            out.data[i] = sub(out.data[i], self.at[i[1]])
        return out

    def tile(self, box):
        """Gray values of a box (left, top, right, bottom)."""
        rows = self.array.data[box[1]:box[3], box[0]:box[2]]
        if self.bands == 1:
            return [list(r) for r in rows]
        return [[div(total(p), self.bands) for p in r] for r in rows]


def flat(t):
    return [x for r in t for x in r]


def normalized(t):
    xs = flat(t)
    m = div(total(xs), len(xs))
    s = T.sqrt(div(total([mul(sub(x, m), sub(x, m)) for x in xs]), len(xs)))
    return [[div(sub(x, m), s) for x in r] for r in t]


def order_of(t):
    """Ranks of the pixels, and pixels by rank."""
    from ..vg import decide
    xs = flat(t)
    o, ties = decide.ordering(xs)
    assert not any(ties)
    return o


def matched_tile(t, ref):
    """Tile with the values of the reference histogram at the same quantiles."""
    o, ro = order_of(t), order_of(ref)
    xs = flat(t)
    v = [flat(ref)[i] for i in ro]
    n, m = len(xs), len(v)
    out = [None] * n
    for k, i in enumerate(o):
        # quantile (k + 1) / n between those (j + 1) / m of the reference
        p = (k + 1) * m / n - 1
        if p <= 0:
            out[i] = v[0]
        elif p >= m - 1:
            out[i] = v[-1]
        else:
            j = int(p + 1e-9)
            f = p - j
            out[i] = v[j] if abs(f) < 1e-9 else add(
                mul(1 - f, v[j]), mul(f, v[min(j + 1, m - 1)]))
    w = len(t[0])
    return [out[i * w:(i + 1) * w] for i in range(len(t))]


def highpassed(t, size):
    """Tile minus its median within a window (ny, nx), edges reflected."""
    h, w = len(t), len(t[0])

    def ref(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    out = []
    for i in range(h):
        row = []
        for j in range(w):
            xs = [t[ref(i + p - size[0] // 2, h)][ref(j + q - size[1] // 2, w)]
                  for p in range(size[0]) for q in range(size[1])]
            row.append(sub(t[i][j], T.rank(xs, len(xs) // 2)))
        out.append(row)
    return out


def mismatch(search, templ):
    """Mean squared difference at every position of the template."""
    h, w = len(templ), len(templ[0])
    out = []
    for i in range(len(search) - h + 1):
        row = []
        for j in range(len(search[0]) - w + 1):
            e = [sub(search[i + p][j + q], templ[p][q]) for p in range(h)
                 for q in range(w)]
            row.append(div(total([mul(x, x) for x in e]), h * w))
        out.append(row)
    return out


def bilinear(t, left, top, u, v):
    """Value at (u, v) of a table with cells of size one, the first center given."""
    from ..vg import scipymod as M
    xs = [add(left, j) for j in range(len(t[0]))]
    ys = [add(top, i) for i in range(len(t))]
    return M.surface("linear", ys, xs, t, v, u)


def likelihood(ctx):
    r = "R5-likelihood"
    sigma = T.sym("sigma", (), ("range", 0.1, 2))
    hp = (3, 3)

    def jit(x, k):
        return add(x, T.sym(f"jit{k}", (), ("range", -0.04, 0.04)))
    cases = {
        "spread": ((6.3, 5.6), (5, 3), ((7.2, 5.3), (6.6, 6.4), (8.1, 5.9)), 1),
        "bands": ((6.3, 5.6), (5, 3), ((7.2, 5.3), (6.6, 6.4), (8.1, 5.9)), 3),
        "together": ((5.8, 6.3), (3, 4), ((6.2, 6.3), (6.3, 6.4), (6.25, 6.2)), 1),
        "at the edge": ((2.6, 2.4), (4, 3), ((2.3, 2.2), (3.2, 2.7), (2.7, 3.2)), 1),
    }
    for nm, (at, size, ps, bands) in cases.items():
        # images move and differ in size
        a, b = Scene("a", 14, 12, bands), Scene("bb", 14, 12, bands, (0.5, -1.25))
        c = Scene("ccc", 40, 40, at=(-15, -15))
        n = len(ps)
        P0 = V.sym_array("P0", (n, 6))
        P1 = V.sym_array("P1", (n, 6))
        for i in range(n):
            for k in (0, 1):
                P0.data[i, k] = jit(at[k] + (i - 1) * 0.1, f"0,{nm},{i},{k}")
                P1.data[i, k] = jit(ps[i][k] + b.at[k], f"1,{nm},{i},{k}")
        w = SG.farr(1, 1.5, 0.75)

        def body(l, img=2, far=0, cache=True):
            seen = []
            o = l.prog.cls("Observer")
            ob = V.Obj(o, {"images": [s.image(l, seen) for s in (c, a, b)],
                           "datetimes": V.to_arr([0, 1, 2]), "sigma": sigma,
                           "cache": cache})
            ot = V.Obj(o, {"images": [], "datetimes": V.to_arr([0, 1]), "sigma": 1,
                           "cache": True})
            t = l.construct(l.prog.cls("Tracker"), [[ot, ob]], {
                "highpass": {"size": hp}, "interpolation": {"kx": 1, "ky": 1}})
            l.setattr(t, "particles", P0.copy())
            l.setattr(t, "weights", w.copy())
            method(l, t, "initialize_template", obs=1, img=1, tile_size=size)
            p = P1.copy()
            for i in range(n):
                p.data[i, 0] = add(p.data[i, 0], far)
            l.setattr(t, "particles", p)
            out = method(l, t, "compute_observer_log_likelihoods", obs=1, img=img)
            return out, (l.getattr(t, "particles").data[0, 3], l.getattr(t, "weights"),
                         all(x is cache for x in seen))
        # the template is centered on the mean of the particles, on whole pixels
        mean = [div(total([mul(x, y) for x, y in zip(P0.data[:, k], w.data)]),
                    total(w.data)) for k in (0, 1)]
        lo = [int(round(at[k] - size[k] / 2)) for k in (0, 1)]
        tb = lo + [lo[k] + size[k] for k in (0, 1)]
        duv = [sub(mean[k], (tb[k] + tb[k + 2]) / 2) for k in (0, 1)]
        raw = normalized(a.tile(tb))
        templ = highpassed(raw, hp)
        # the search tile holds the templates of all particles and a cell to spare
        sb = []
        for k in (0, 1):
            p0 = min(p[k] for p in ps) - size[k] / 2
            p1 = max(p[k] for p in ps) + size[k] / 2
            spare = 1 - (p1 - p0 - size[k])
            if spare > 0:
                p0, p1 = p0 - spare / 2, p1 + spare / 2
            sb.append((int(p0 // 1), int(-(-p1 // 1))))
        sb = [sb[0][0], sb[1][0], sb[0][1], sb[1][1]]
        search = highpassed(matched_tile(normalized(b.tile(sb)), raw), hp)
        mse = mismatch(search, templ)
        want = [div(bilinear(mse, add(sb[0] + size[0] / 2, duv[0]),
                             add(sb[1] + size[1] / 2, duv[1]),
                             *(sub(P1.data[i, k], b.at[k]) for k in (0, 1))),
                    mul(2, mul(sigma, sigma))) for i in range(n)]
        same = (P1.data[0, 3], w, True)
        for cache in (True, False):
            C.check(ctx, r, f"Tracker.compute_observer_log_likelihoods[{nm}"
                    f"{'' if cache else ',not cached'}]", lift(
                        ctx, lambda l: body(l, cache=cache)), (SG.farr(*want), same),
                    tol=1e-7)
        C.check(ctx, r, f"Tracker.compute_observer_log_likelihoods[no image,{nm}]",
                lift(ctx, lambda l: body(l, img=None)), (None, same))
        for far in (-9, 9):
            C.check(ctx, r, "Tracker.compute_observer_log_likelihoods[beyond image,"
                    f"{far},{nm}]", lift(ctx, lambda l: body(l, far=far)), (None, same))


def tiles(ctx):
    """Tiles and histograms of known pixels."""
    r = "R5-likelihood"
    import numpy as np
    px = np.array([[(i * 7 + j * 5) % 11 + 3 * b * (j % 3) for b in range(3)]
                   for i in range(5) for j in range(6)], float).reshape(5, 6, 3)
    for bands, size, cache in itertools.product((1, 3), ((3, 3), (1, 3)), (True, False)):
        a = px if bands == 3 else px[..., 0]
        gray = a.mean(axis=2) if bands == 3 else a
        norm = (gray - gray.mean()) / gray.std()
        # (equal values may differ by rounding: steps of the distribution are merged)
        vs, counts = np.unique(norm.round(9), return_counts=True)
        low = np.array(highpassed_of(norm, size))

        def body(l):
            o = l.prog.cls("Observer")
            im = V.Obj("image", {"read": V.Native(lambda box=None, cache=True: V.to_arr(
                a.tolist())), "size": SG.farr(6, 5, kind="i")})
            ob = V.Obj(o, {"images": [im], "datetimes": V.to_arr([0]), "sigma": 1,
                           "cache": cache})
            t = l.construct(l.prog.cls("Tracker"), [[ob]], {"highpass": {"size": size}})
            box = SG.farr(0, 0, 6, 5, kind="i")
            tile, hist = l.iterate(method(l, t, "extract_tile", obs=0, img=0, box=box,
                                          return_histogram=True))
            plain = method(l, t, "extract_tile", obs=0, img=0, box=box)
            h = [V.to_arr(x) for x in l.iterate(hist)]
            v, q = ([l.number(y) for y in x.data.flat] for x in h)
            # the distribution at the middle between values
            mid = [sum(1 for x in v if x < m) for m in (vs[1:] + vs[:-1]) / 2]
            return tile, plain, [q[k - 1] if k else 0.0 for k in mid], q[-1], [
                v[0], v[-1]]
        C.check(ctx, r, f"Tracker.extract_tile[{bands} bands,{size},{cache}]",
                lift(ctx, body), (V.to_arr(low.tolist()), V.to_arr(low.tolist()), [
                    float(x) for x in np.cumsum(counts)[:-1] / counts.sum()], 1.0,
                    [float(vs[0]), float(vs[-1])]), tol=1e-7)
    # the template fits as often as the spline needs values
    for kx, ky in ((1, 3), (3, 1), (2, 4), (5, 2)):
        sc = Scene("a", 40, 40)
        sc.array = V.to_arr([[float((i * 41 + j * 13) % 97) for j in range(40)]
                             for i in range(40)])

        def body(l):
            seen = []
            o = l.prog.cls("Observer")
            ob = V.Obj(o, {"images": [sc.image(l, seen)], "datetimes": V.to_arr([0]),
                           "sigma": 1, "cache": True})
            t = l.construct(l.prog.cls("Tracker"), [[ob]], {
                "highpass": {"size": (3, 3)}, "interpolation": {"kx": kx, "ky": ky}})
            p = V.full((2, 6), 0.0)
            for i in range(2):
                p.data[i, 0], p.data[i, 1] = 20.1 + i * 0.2, 17.7 + i * 0.1
            l.setattr(t, "particles", p)
            l.setattr(t, "weights", SG.farr(1, 1))
            method(l, t, "initialize_template", obs=0, img=0, tile_size=(5, 7))
            del sc.boxes[:]
            method(l, t, "compute_observer_log_likelihoods", obs=0, img=0)
            b = [l.number(x) for x in V.to_arr(l.resolve(sc.boxes[-1])).data.flat]
            return b[2] - b[0] - 5 >= ky, b[3] - b[1] - 7 >= kx
        C.check(ctx, r, f"Tracker.compute_observer_log_likelihoods[spline of {kx},{ky}]",
                lift(ctx, body), (True, True))
    # values of the spline asked for, and templates of several observers
    size = (5, 4)
    scenes = [Scene("a", 40, 40), Scene("a", 40, 40, at=(2, -3))]
    for k, sc in enumerate(scenes):
        sc.array = V.to_arr([[float(((i * 40 + j) * (577 + k * 32)) % 1601)
                              for j in range(40)] for i in range(40)])
    at = [(18.75, 16.25), (22.25, 18.5), (21.25, 20.5)]
    boxes = []
    for sc in scenes:
        mean = [sum(p[k] for p in at) / 3 - sc.at[k] for k in (0, 1)]
        lo = [int(round(mean[k] - size[k] / 2)) for k in (0, 1)]
        boxes.append((lo + [lo[k] + size[k] for k in (0, 1)], [
            mean[k] - lo[k] - size[k] / 2 for k in (0, 1)]))
    for kx, ky in ((1, 1), (2, 2), (3, 1), (1, 3)):
        def body(l, order=(0, 1)):
            o = l.prog.cls("Observer")
            obs = [V.Obj(o, {"images": [sc.image(l, [])], "datetimes": V.to_arr([k]),
                             "sigma": 1 + k, "cache": True})
                   for k, sc in enumerate(scenes)]
            t = l.construct(l.prog.cls("Tracker"), [obs], {
                "highpass": {"size": (3, 3)}, "interpolation": {"kx": kx, "ky": ky}})
            p = V.full((3, 6), 0.0)
            for i, x in enumerate(at):
                p.data[i, 0], p.data[i, 1] = x
            l.setattr(t, "particles", p)
            l.setattr(t, "weights", SG.farr(1, 1, 1))
            for k in order:
                method(l, t, "initialize_template", obs=k, img=0, tile_size=size)
            return [method(l, t, "compute_observer_log_likelihoods", obs=k, img=0)
                    for k in (0, 1)]
        want = []
        for k, (sc, (box, duv)) in enumerate(zip(scenes, boxes)):
            raw = normalized(sc.tile(box))
            sb = []
            for j, spare in ((0, ky), (1, kx)):
                ps = [p[j] - sc.at[j] for p in at]
                p0, p1 = min(ps) - size[j] / 2, max(ps) + size[j] / 2
                more = spare - (p1 - p0 - size[j])
                if more > 0:
                    p0, p1 = p0 - more / 2, p1 + more / 2
                sb.append((int(p0 // 1), int(-(-p1 // 1))))
            search = highpassed(matched_tile(normalized(sc.tile(
                [sb[0][0], sb[1][0], sb[0][1], sb[1][1]])), raw), (3, 3))
            mse = mismatch(search, highpassed(raw, (3, 3)))
            from ..vg import scipymod as M
            xs = [sb[0][0] + size[0] / 2 + duv[0] + j for j in range(len(mse[0]))]
            ys = [sb[1][0] + size[1] / 2 + duv[1] + j for j in range(len(mse))]
            kind = "linear" if kx == ky == 1 else f"spline{kx},{ky}"
            want.append([div(M.surface(kind, ys, xs, mse, *(
                # (at most half a cell beyond the centers)
                min(max(p[j] - sc.at[j], v[0]), v[-1]) for j, v in ((1, ys), (0, xs)))),
                2 * (1 + k) ** 2) for p in at])
        for order in ((0, 1), (1, 0)):
            C.check(ctx, r, "Tracker.compute_observer_log_likelihoods[two observers,"
                    f"{kx},{ky},{order}]", lift(ctx, lambda l: body(l, order)),
                    [SG.farr(*x) for x in want], tol=1e-7)


def highpassed_of(t, size):
    return [[float(x) for x in row] for row in highpassed(t.tolist(), size)]


# -- the filter as a whole -------------------------------------------------------------
class OfTracker(V.Native):
    """A stand-in for a method, of the tracker or of its copies in other processes."""

    def __init__(self, method, t):
        self.method, self.t = method, t
        super().__init__(lambda *args, **kw: method(t, *args, **kw))

    def deepcopy(self, l, memo):
        return OfTracker(self.method, npmod.deep(l, self.t, memo))


class World:
    """Stubs for everything around the filter, and the expected history."""

    def __init__(self, images, units=None, n=2, informative=True):
        self.images, self.n, self.informative = images, n, informative
        self.units = units or [T.sym("unit", (), "timedelta")] * 3
        t0 = T.sym("t0", (), "datetime")
        self.day = [add(t0, add(k, T.sym(f"dt{k}", (), ("range", 0.0, 0.2))))
                    for k in range(6)]
        self.start = [V.sym_array(f"I{m}", (n, 6)) for m in range(3)]
        self.rate = V.sym_array("R", (6,), ("range", 0.1, 0.3))
        self.weigh = V.sym_array("L", (len(images) + 1, n, 4), ("range", 0.1, 0.9))
        self.tile = SG.farr(11, 9, kind="i")
        self.shift = 0

    def evolved(self, rows, dt):
        return [[add(mul(x, add(1, mul(i + 1, 0.25))), mul(dt, r))
                 for x, r in zip(p, self.rate.data)] for i, p in enumerate(rows)]

    def likelihood(self, who, img, rows):
        return [mul(self.weigh.data[who, i, img], T.app("exp", T.app("sin", p[0])))
                for i, p in enumerate(rows)]

    def model(self, l, m, invalid=False):
        def evolve(particles, dt):
            if particles is None:
                raise PyError("TypeError: no particles")
            rows = self.evolved([list(p) for p in particles.data], dt)
            for i, p in enumerate(rows):
                for k, x in enumerate(p):
                    particles.data[i, k] = x
            if invalid == "later":
                particles.data[-1, 2] = float("nan")
        first = V.full((self.n, 6), float("nan")) if invalid is True else self.start[m]
        return V.Obj("motion", {
            "n": self.n, "time_unit": self.units[m],
            "initialize_particles": V.Native(lambda: first.copy()),
            "evolve_particles": V.Native(evolve),
            "compute_log_likelihoods": V.Native(lambda particles: SG.farr(
                *self.likelihood(-1, 0, particles.data)) if self.informative else None)})

    def run(self, ctx, models=1, caching=(True, True, False), bad=(), **kw):
        w = self
        w.events = []

        def body(l):
            obs = []
            for k, idx in enumerate(w.images):
                def cache(index=None, k=k):
                    w.events.append(("cache", k, sorted(l.iterate(index))))
                obs.append(V.Obj("observer", {
                    "datetimes": V.to_arr([add(w.day[i], w.shift) for i in idx]),
                    "cache": caching[k], "cache_images": V.Native(cache)}))
            t = tracker(l, obs)
            # templates of an earlier run
            old = [V.Obj("template", {}) for _ in obs]
            l.setattr(t, "templates", list(old))
            w.stale = False

            def template(t, obs, img, tile_size):
                p = l.getattr(t, "particles")
                w.events.append(("template", obs, img, tile_size, p.data[0, 0]))
                kept = l.getattr(t, "templates")
                w.stale |= kept is not None and any(
                    x in old for x in l.iterate(kept))

            def ll(t, obs, img):
                if img is None:
                    return None
                return SG.farr(*w.likelihood(obs, img, l.getattr(t, "particles").data))
            t.attrs["initialize_template"] = OfTracker(template, t)
            t.attrs["compute_observer_log_likelihoods"] = OfTracker(ll, t)
            tr = method(l, t, "track", [w.model(l, m, bad[m] if isinstance(bad, dict) else m in bad)
                                      for m in range(models)],
                        tile_size=w.tile, **kw)
            names = ["datetimes", "time_unit", "means", "sigmas", "covariances",
                     "particles", "weights", "images"]
            out = {k: l.getattr(tr, k) for k in names}
            out["templates"] = [list(e[1:]) for e in w.events if e[0] == "template"]
            out["cached"] = [list(e[1:]) for e in w.events if e[0] == "cache"]
            e = l.getattr(tr, "errors")
            out["failed"] = [x is not None for x in l.iterate(e)]
            out["reduced"] = (l.getattr(tr, "reduced")
                              if kw.get("reduce_particles") else None)
            out["tracker"] = l.getattr(tr, "tracker") is t
            out["stale templates"] = w.stale
            return out
        return lift(ctx, body)

    def expected(self, draws, idx, match, models=1, mask=None, cov=False, keep=False,
                 reduced=None, caching=(True, True, False), bad=()):
        """History given the times (indices of days), image matches and draws."""
        times = [self.day[k] for k in idx]
        draws = iter(draws)
        nan = float("nan")
        T_ = len(times)
        res = {"means": [], "sigmas": [], "particles": [], "weights": []}
        out = {"templates": []}
        for m in range(models):
            mk = mask[m] if mask else [True] * len(self.images)
            rows = [[i if ok else None for i, ok in zip(r, mk)] for r in match]
            seen = [any(x is not None for x in r) for r in rows]
            first = seen.index(True)
            last = len(seen) - 1 - seen[::-1].index(True)
            h = {k: [] for k in res}
            ref = set()
            for i in range(T_):
                if i < first or i > last or m in bad:
                    h["means"].append([nan] * 6)
                    h["sigmas"].append([[nan] * 6] * 6 if cov else [nan] * 6)
                    h["particles"].append([[nan] * 6] * self.n)
                    h["weights"].append([nan] * self.n)
                    continue
                if i == first:
                    p = [list(x) for x in self.start[m].data]
                    w = [1] * self.n
                else:
                    p = self.evolved(p, sub(times[i], times[i - 1]))
                for k, img in enumerate(rows[i]):
                    if img is not None and k not in ref:
                        ref.add(k)
                        out["templates"].append([k, img, self.tile, p[0][0]])
                if i > first:
                    ls = [self.likelihood(k, img, p) for k, img in enumerate(rows[i])
                          if img is not None]
                    if self.informative:
                        ls.append(self.likelihood(-1, 0, p))
                    if ls:
                        w = [T.app("exp", T.app("neg", total(x))) for x in zip(*ls)]
                    cum = cumulative(w)
                    u = next(draws)
                    index = [position(cum, div(add(j, u), self.n))
                             for j in range(self.n)]
                    rs = chosen([tuple(x) + (y,) for x, y in zip(p, w)], index)
                    p, w = [r[:6] for r in rs], [r[6] for r in rs]
                s = total(w)

                def mean(xs):
                    return div(total([mul(a, b) for a, b in zip(w, xs)]), s)
                mu = [mean([x[k] for x in p]) for k in range(6)]
                d = [[sub(x[k], mu[k]) for x in p] for k in range(6)]
                h["means"].append(mu)
                if cov:
                    h["sigmas"].append([[mean([mul(x, y) for x, y in zip(a, b)])
                                         for b in d] for a in d])
                else:
                    h["sigmas"].append([T.sqrt(mean([mul(x, x) for x in a]))
                                        for a in d])
                h["particles"].append([list(x) for x in p])
                h["weights"].append(list(w))
            for k in res:
                res[k].append(h[k])
        arr = {k: V.to_arr(v) for k, v in res.items()}
        out.update(datetimes=SG.farr(*times), time_unit=self.units[0],
                   means=arr["means"], tracker=True, **{"stale templates": False},
                   sigmas=None if cov else arr["sigmas"],
                   covariances=arr["sigmas"] if cov else None,
                   particles=arr["particles"] if keep else None,
                   weights=arr["weights"] if keep else None,
                   failed=[m in bad for m in range(models)], reduced=reduced)
        im = V.Arr(V.np.full((T_, len(self.images)), None, dtype=object),
                   (T_, len(self.images)), "o")
        for i, r in enumerate(match):
            for k, x in enumerate(r):
                im.data[i, k] = x
        out["images"] = im
        out["cached"] = [[k, sorted(r[k] for r in match if r[k] is not None)]
                         for k in range(len(self.images)) if caching[k]] \
            if models > 1 else []
        if reduced:
            out["reduced"] = [reduced(V.to_arr(a), V.to_arr(b)) for a, b in zip(
                res["particles"], res["weights"])]
        return out


def tracking(ctx):
    r = "R6-track"
    sets = {"one after another": [(0, 1, 2), (1, 2)], "apart": [(0, 1), (2, 3)],
            "gap": [(0, 3), (1,)]}
    others = {"together": [(0, 1, 2), (0, 1, 2)], "three": [(1, 2), (0, 1), (2, 3)],
              "three at once": [(0, 2), (0, 1), (0, 1, 2)]}

    def matches(sets, idx):
        return [[o.index(k) if k in o else None for o in sets] for k in idx]

    def case(name, sets, idx=None, models=1, mask=None, world=None, bad=(),
             caching=(True, True, False), offset=None, **kw):
        w = World(sets, **(world or {}))
        every = sorted(set(k for o in sets for k in o))
        args = dict(kw)
        if offset:
            w.shift = offset
            args["maxdt"] = T.sym("tol", (), ("range", 0.25, 0.5))
            idx = every
        if idx is not None:
            args["datetimes"] = V.to_arr([w.day[k] for k in idx])
            # duplicates, and times without images (when there are none), are dropped
            idx = [k for i, k in enumerate(idx) if (not i or k != idx[i - 1])
                   and (offset or k in every)]
        if mask is not None:
            args["observer_mask"] = V.to_arr(mask)
            args["observer_mask"].kind = "b"
        out = w.run(ctx, models, caching, bad, **args)
        draws = [a.data.flat[0] for what, dims, _, a in out.l.draws
                 if what == "random" and dims in ((), (1,))]
        o = f"Tracker.track[{name}]"
        idx = every if idx is None else idx

        def history(draws):
            return w.expected(draws, idx, matches(sets, idx), models, mask,
                              bool(kw.get("return_covariances")),
                              bool(kw.get("return_particles"))
                              and not kw.get("reduce_particles"), reducer(kw), caching,
                              bad)
        # which times are tracked, and from which images, whatever the draws
        C.check(ctx, r, o + ": times and images", out, outline(history(
            itertools.repeat(0.5))), get=outline)
        if len(draws) != len(out.l.draws):
            ctx.oblige(r, o, None, "the draws are not those of the scheme")
            return
        try:
            want = history(draws)
        except StopIteration:
            # (no position is drawn for each of the images)
            ctx.oblige(r, o, False if out.failed is None and out.error is None and
                       not out.taint else None, f"particles drawn {len(draws)} times only")
            return
        C.check(ctx, r, o, out, want)

    def outline(v):
        out = {k: v[k] for k in ("failed", "cached", "images", "tracker")}
        out["templates"] = [e[:3] for e in v["templates"]]
        for k in ("means", "sigmas", "covariances", "particles", "weights"):
            x = v[k]
            if isinstance(x, (list, tuple)):
                x = V.to_arr(x)
            out[k] = [T.app("isnan", e) for e in x.data.ravel()] if isinstance(
                x, V.Arr) else x
        return out

    def reducer(kw):
        f = kw.get("reduce_particles")
        return f.fn if f is not None else None

    def reduce(particles, weights):
        return [particles.copy(), weights.copy()]
    for nm, s in sets.items():
        case(nm, s)
        case(nm + ",covariances", s, return_covariances=True)
        case(nm + ",particles", s, return_particles=True)
        case(nm + ",reduced", s, reduce_particles=V.Native(reduce))
        case(nm + ",first observer", s, mask=[[True, False]], return_particles=True)
        case(nm + ",second observer", s, mask=[[False, True]], return_particles=True)
        case(nm + ",uninformative motion", s, world={"informative": False},
             return_particles=True)
        case(nm + ",two models", s, models=2, mask=[[True, False], [True, True]],
             world={"informative": False})
        case(nm + ",two models,in parallel", s, models=2, mask=[[True, False], [True, True]],
             world={"informative": False}, return_particles=True, parallel=2)
        case(nm + ",one of two fails,in parallel", s, models=2, bad=(0,), parallel=2)
        case(nm + ",two models,not cached", s, models=2, caching=(True, False),
             mask=[[False, True], [True, False]])
        case(nm + ",one of two fails", s, models=2, bad=(0,), return_particles=True)
    for nm, s in others.items():
        case(nm, s, return_particles=True)
        case(nm + ",covariances", s, return_covariances=True)
        case(nm + ",three models", s, models=3, mask=[
            [k != m for k in range(len(s))] for m in range(3)])
    for kw in ({}, {"return_covariances": True}, {"return_particles": True}):
        case("reduced" + "".join("," + k for k in kw), sets["apart"], models=2,
             mask=[[True, True], [False, True]], reduce_particles=V.Native(reduce), **kw)
    case("observer without images", sets["apart"], idx=(2, 3), return_particles=True)
    case("other observer without images", sets["apart"], idx=(0, 1), models=2)
    for off in (0.1, -0.15):
        case(f"images {off} from the times", sets["apart"], models=2, offset=off)
    case("backwards", sets["apart"], idx=(3, 2, 1, 0), return_particles=True)
    case("some times", sets["apart"], idx=(0, 2, 3))
    case("repeated times", sets["apart"], idx=(0, 2, 2, 3), return_particles=True)
    case("repeated times,backwards", sets["apart"], idx=(3, 3, 1, 0, 0))
    case("times without images", sets["gap"], idx=(0, 1, 2, 3), return_particles=True)
    w = World(sets["apart"])
    C.check_raises(ctx, r, "Tracker.track[invalid particles]",
                   w.run(ctx, bad=(0,)))
    C.check_raises(ctx, r, "Tracker.track[particles that become invalid]",
                   World(sets["apart"]).run(ctx, bad={0: "later"}))
    for units in ([1, 2], [2, 1], [1, 1, 2], [2, 2, 1], [1, 2, 1]):
        w = World(sets["apart"], units=units)
        C.check_raises(ctx, r, f"Tracker.track[time units {units}]",
                       w.run(ctx, len(units)))


def validity(ctx):
    r = "R6-track"
    P = V.sym_array("P", (2, 6))

    def body(points, visible=None):
        def f(l):
            seen = []

            def sample(xy, order=1, bounds_error=True, **kw):
                seen.append((xy, order))
                return SG.farr(*visible)
            v = None if visible is None else V.Obj("viewshed", {
                "sample": V.Native(sample)})
            t = tracker(l, **({} if v is None else {"viewshed": v}))
            l.setattr(t, "particles", points.copy())
            method(l, t, "test_particles")
            return [list(s) for s in seen], l.getattr(t, "particles")
        return lift(ctx, f)
    xy = V.Arr(P.data[:, :2].copy(), (2, 2), "f")
    C.check(ctx, r, "Tracker.test_particles[valid]", body(P), ([], P))
    C.check(ctx, r, "Tracker.test_particles[visible]", body(P, (1, 1)), ([[xy, 0]], P))
    for vis in ((0, 1), (1, 0), (0, 0)):
        C.check_raises(ctx, r, f"Tracker.test_particles[visible {vis}]", body(P, vis))
    for i in V.np.ndindex(2, 6):
        Q = P.copy()
        Q.data[i] = float("nan")
        C.check_raises(ctx, r, f"Tracker.test_particles[missing {i}]", body(Q))
