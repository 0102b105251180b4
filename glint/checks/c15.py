"""C15: particle motion models."""
import itertools

from ..spec import grid as SG
from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from .c06 import lift, method
from .c12 import value

add, mul, sub, div = T.add, T.mul, T.sub, T.div


def run(ctx):
    ctx.rule("R1-initial", "initial particles are the mean plus the standard deviation "
             "times independent normal draws, in position and in velocity (converted from "
             "polar components for cylindrical models), at the height of the surface plus "
             "its uncertainty times a draw")
    ctx.rule("R2-evolution", "a time step moves particles by v t + a t^2 / 2 and changes "
             "their velocity by a t, t in time units of the model and of either sign; "
             "tangent models follow the surface at the same relative height, adjusted in "
             "proportion to the distance")
    ctx.rule("R3-likelihood", "the log likelihood of a Cartesian or cylindrical model is "
             "the squared height above the surface over twice its variance, zero where "
             "the variance is zero, and absent without uncertainty")
    ctx.rule("R4-surface", "a constant surface or uncertainty applies everywhere")
    n = T.dim("n")
    s = lambda k, lo=-3.0, hi=3.0: T.sym(k, (), ("range", lo, hi))   # noqa: E731

    def vec(k, m, lo=-3.0, hi=3.0):
        return [s(f"{k}{i}", lo, hi) for i in range(m)]
    xy, xs = vec("x", 2), vec("xs", 2, 0.1, 3)
    unit = s("unit", 500, 5000)
    big = SG.G(size=(3, 2)).replace(x=(-9e3, 8e3), y=(7e3, -6e3))
    z = V.sym_array("z", (2, 3))
    zs = V.sym_array("zs", (2, 3), ("range", 0.2, 2.0))
    c, cs = s("c"), s("cs", 0.1, 2)
    surfaces = {
        "raster": (lambda l: big.raster(l, z.copy()), lambda x, y: value(big, z, x, y)),
        "constant": (lambda l: c, lambda x, y: c)}
    sigmas = {
        "raster": (lambda l: big.raster(l, zs.copy()),
                   lambda x, y: value(big, zs, x, y)),
        "constant": (lambda l: cs, lambda x, y: cs),
        "zero": (lambda l: 0, lambda x, y: 0),
        "default": (None, lambda x, y: 0)}
    models = {
        "Cartesian": (3, "vxyz", "axyz", False),
        "Cylindrical": (3, "vrthz", "arthz", True),
        "TangentCartesian": (2, "vxy", "axy", False),
        "TangentCylindrical": (2, "vrth", "arth", True)}
    P = V.sym_array("P", (n, 6), ("range", -5.0, 5.0))
    Pc = list(P.data[0])
    dt = s("dt", -1500, 1500)
    tau = div(dt, unit)
    draws = lambda k: [T.sym(f"unused{i}", (n,)) for i in range(k)]     # noqa: E731

    # minimal model
    vs = vec("vs", 3, 0.1, 2)

    def plain(l):
        return l.construct(l.prog.cls("Motion"), [SG.farr(*xy), unit], dict(
            n=T.dimlen(n), vxyz_sigma=SG.farr(*vs)))

    def evolve(build):
        def body(l):
            p = P.copy()
            r = method(l, build(l), "evolve_particles", p, dt=dt)
            return p, r
        return body
    matched(ctx, "R1-initial", "Motion.initialize_particles", lift(
        ctx, lambda l: method(l, plain(l), "initialize_particles")), [3],
        lambda d: rows(n, xy + [0] + [mul(a, b) for a, b in zip(vs, d)]))
    matched(ctx, "R1-initial", "Motion.initialize_particles[at rest]", lift(
        ctx, lambda l: method(l, l.construct(
            l.prog.cls("Motion"), [SG.farr(*xy), unit], dict(n=T.dimlen(n))),
            "initialize_particles")), [3], lambda d: rows(n, xy + [0] * 4))
    C.check(ctx, "R2-evolution", "Motion.evolve_particles", lift(ctx, evolve(plain)),
            (rows(n, [add(a, mul(tau, b)) for a, b in zip(Pc, Pc[3:])] + Pc[3:]), None))
    C.check(ctx, "R3-likelihood", "Motion.compute_log_likelihoods", lift(
        ctx, lambda l: method(l, plain(l), "compute_log_likelihoods", P.copy())), None)

    for name, (m, vn, an, polar) in models.items():
        tangent = m == 2
        v, vsg = vec("v", m), vec("w", m, 0.1, 2)
        a, asg = vec("a", m), vec("b", m, 0.1, 2)
        slope = s("slope", 0.1, 1)
        for (sn, (sb, sv)), (gn, (gb, gv)) in itertools.product(
                surfaces.items(), sigmas.items()):
            if ctx.tier == "quick" and sn == "constant" and gn in ("zero", "raster"):
                continue
            o = f"{name}Motion", f"[{sn} surface, {gn} uncertainty]"
            absent = gn == "default" and not tangent

            def build(l, bare=False):
                kw = dict(n=T.dimlen(n))
                if not bare:
                    kw.update({"xy_sigma": SG.farr(*xs), vn: SG.farr(*v),
                               vn + "_sigma": SG.farr(*vsg), an: SG.farr(*a),
                               an + "_sigma": SG.farr(*asg)})
                    if tangent:
                        kw["slope_sigma"] = slope
                if gb is not None:
                    kw["dem_sigma"] = gb(l)
                return l.construct(l.prog.cls(name + "Motion"),
                                   [SG.farr(*xy), unit, sb(l)], kw)

            def start(d):
                x, y = (add(p, mul(q, r)) for p, q, r in zip(xy, xs, d))
                h = add(sv(x, y), mul(gv(x, y), d[2]))
                u = [add(p, mul(q, r)) for p, q, r in zip(v, vsg, d[3:])]
                if polar:
                    u[:2] = mul(u[0], T.app("cos", u[1])), mul(u[0], T.app("sin", u[1]))
                return rows(n, [x, y, h] + u + [0] * (3 - m))
            matched(ctx, "R1-initial", f"{o[0]}.initialize_particles{o[1]}", lift(
                ctx, lambda l: method(l, build(l), "initialize_particles")),
                [2, 1, m], start)

            def step(d):
                acc = [add(p, mul(q, r)) for p, q, r in zip(a, asg, d)]
                if polar:
                    vx, vy = Pc[3:5]
                    vr = T.app("sqrt", add(mul(vx, vx), mul(vy, vy)))
                    acc[:2] = (sub(div(mul(acc[0], vx), vr), mul(vy, acc[1])),
                               add(div(mul(acc[0], vy), vr), mul(vx, acc[1])))
                dx = [add(mul(tau, p), mul(mul(0.5, q), mul(tau, tau)))
                      for p, q in zip(Pc[3:], acc)]
                w = [add(p, mul(tau, q)) for p, q in zip(Pc[3:], acc)]
                new = [add(p, q) for p, q in zip(Pc, dx)]
                if tangent:
                    dist = T.app("sqrt", add(mul(dx[0], dx[0]), mul(dx[1], dx[1])))
                    new.append(add(sv(*new), add(
                        sub(Pc[2], sv(*Pc[:2])), mul(mul(slope, d[2]), dist))))
                    w.append(Pc[5])
                return rows(n, new + w), None
            matched(ctx, "R2-evolution", f"{o[0]}.evolve_particles{o[1]}",
                    lift(ctx, evolve(build)), [2, 1] if tangent else [3], step)
            if sn == "raster" and gn == "constant":
                # defaults: no spread, no motion
                matched(ctx, "R1-initial", f"{o[0]}.initialize_particles[defaults]",
                        lift(ctx, lambda l: method(l, build(l, True),
                                                   "initialize_particles")), [2, 1, m],
                        lambda d: rows(n, xy + [add(sv(*xy), mul(cs, d[2]))] + [0] * 3))
                going = [add(p, mul(tau, q)) for p, q in zip(Pc, Pc[3:])]
                if tangent:
                    going[2] = add(sub(Pc[2], sv(*Pc[:2])), sv(*going[:2]))
                matched(ctx, "R2-evolution", f"{o[0]}.evolve_particles[defaults]",
                        lift(ctx, evolve(lambda l: build(l, True))),
                        [2, 1] if tangent else [3],
                        lambda d: (rows(n, going + Pc[3:]), None))
                if polar:
                    rest = P.copy()
                    rest.data[0, 3:5] = 0
                    still = [Pc[0], Pc[1], add(Pc[2], mul(tau, Pc[5]))]
                    if tangent:
                        still[2] = Pc[2]

                    def at_rest(l):
                        p = rest.copy()
                        method(l, build(l, True), "evolve_particles", p, dt=dt)
                        return p
                    matched(ctx, "R2-evolution", f"{o[0]}.evolve_particles[at rest]",
                            lift(ctx, at_rest), [2, 1] if tangent else [3],
                            lambda d: rows(n, still + [0, 0, Pc[5]]))
            want = None
            if not tangent and not absent:
                sg = gv(*Pc[:2])
                e = sub(Pc[2], sv(*Pc[:2]))
                want = V.Arr(V.to_arr([0]).data.copy(), (n,), "f")
                want.data[0] = 0 if gn == "zero" else div(mul(e, e), mul(2, mul(sg, sg)))
            C.check(ctx, "R3-likelihood", f"{o[0]}.compute_log_likelihoods{o[1]}", lift(
                ctx, lambda l: method(l, build(l), "compute_log_likelihoods", P.copy())),
                want)
        if not tangent:
            # uncertainty that vanishes in one row of cells only
            pz = V.to_arr([[0] * 3, [0] * 3])
            g1 = SG.G(size=(1, 1)).replace(x=(-9e3, 8e3), y=(7e3, -6e3))
            one = V.sym_array("one", (1, 1), ("choice", (0, 0.5, 2)))

            def some(l):
                return l.construct(l.prog.cls(name + "Motion"), [
                    SG.farr(*xy), unit, big.raster(l, pz.copy())], dict(
                        dem_sigma=g1.raster(l, one.copy()), n=T.dimlen(n)))
            sg = one.data[0, 0]
            want = V.Arr(V.to_arr([0]).data.copy(), (n,), "f")
            want.data[0] = T.ite(T.app("eq", sg, 0), 0, div(
                mul(Pc[2], Pc[2]), mul(2, mul(sg, sg))))
            C.check(ctx, "R3-likelihood", f"{name}Motion.compute_log_likelihoods[zero "
                    "variance]", lift(ctx, lambda l: method(
                        l, some(l), "compute_log_likelihoods", P.copy())), want)
            few(ctx, name)
            # a constant surface has no edges
            far = [add(4e8, s("fx")), add(-3e8, s("fy"))]

            def distant(l):
                return method(l, l.construct(l.prog.cls(name + "Motion"), [
                    SG.farr(*far), unit, c], dict(dem_sigma=cs, n=T.dimlen(n))),
                    "initialize_particles")
            matched(ctx, "R4-surface", f"{name}Motion.initialize_particles[constant "
                    "surface far away]", lift(ctx, distant), [2, 1, m],
                    lambda d: rows(n, far + [add(c, mul(cs, d[2]))] + [0] * 3))
    ctx.need("R1-initial", 5)
    ctx.need("R2-evolution", 5)
    ctx.assumptions += ["normal draws are free symbols, one per draw",
                        "particles of cylindrical models are in motion"]


def few(ctx, name):
    """Three particles, some of them where the uncertainty is zero."""
    P = V.sym_array("P3", (3, 6))
    for pattern in itertools.product((0, 1), repeat=3):
        sg = [T.sym(f"sg{i}", (), ("range", 0.2, 2.0)) if k else 0
              for i, k in enumerate(pattern)]
        z = V.sym_array("z3", (3,))

        def sample(values):
            def f(xy, order=1, grid=False, bounds_error=True, fill_value=None):
                out = []
                for x in xy.data[:, 0]:
                    i = [k for k in range(3) if P.data[k, 0] is x]
                    if len(i) != 1:
                        raise V.Unsupported("samples at other points")
                    out.append(values[i[0]])
                return SG.farr(*out)
            return V.Obj("surface", {"sample": V.Native(f)})

        def body(l):
            m = l.construct(l.prog.cls(name + "Motion"), [
                SG.farr(0, 0), T.sym("unit", (), ("range", 500, 5000)), 0], {"n": 3})
            l.setattr(m, "dem", sample(list(z.data)))
            l.setattr(m, "dem_sigma", sample(sg))
            return method(l, m, "compute_log_likelihoods", P.copy())
        want = []
        for i, s in enumerate(sg):
            e = sub(P.data[i, 2], z.data[i])
            want.append(div(mul(e, e), mul(2, mul(s, s))) if pattern[i] else 0)
        C.check(ctx, "R3-likelihood", f"{name}Motion.compute_log_likelihoods"
                f"[uncertain {pattern}]", lift(ctx, body), SG.farr(*want))


def rows(n, terms):
    a = V.to_arr([[0] * len(terms)])
    for i, t in enumerate(terms):
        a.data[0, i] = t
    return V.Arr(a.data, (n, len(terms)), "f")


def matched(ctx, rule, construct, out, widths, want):
    """The result for some assignment of the draws made to the draws specified."""
    if out.failed or out.error:
        return C.check(ctx, rule, construct, out, 0)
    n = T.dim("n")
    # only draws of one value (or row of values) for each particle are independent
    blocks = [list(a.data.take([0], axis=dims.index(n)).flat)
              for what, dims, extra, a in out.l.draws if what == "randn" and n in dims]
    results = []
    for pick in assignments(blocks, widths):
        d = []
        for i, (k, w) in enumerate(zip(pick, widths)):
            d += blocks[k] if k is not None else [
                T.sym(f"undrawn{i}_{j}") for j in range(w)]
        results.append(want(d))
    first = None
    for w in results[:6]:
        live = True
        for c, name, where, sure in C.raise_conditions(out, sure_only=False):
            if not T.is_opaque(c):
                live = T.land(live, T.lnot(c))
        r = C.same(out.value, w, live)
        if r.ok:
            return C.check(ctx, rule, construct, out, w)
        first = first or w
    return C.check(ctx, rule, construct, out, first)


def assignments(blocks, widths):
    """Injective assignments of draws to specified draws of the same width."""
    opts = [[k for k, b in enumerate(blocks) if len(b) == w] + [None] for w in widths]
    out = []
    for pick in itertools.product(*opts):
        used = [k for k in pick if k is not None]
        if len(set(used)) == len(used):
            out.append((sum(k is None for k in pick), pick))
    out.sort(key=lambda t: t[0])
    return [p for _, p in out]
