"""C01: public operations leave the objects given to them unchanged."""
from . import common

# (function, parameter): documented to be written in place
DOCUMENTED = {
    ("helpers.rasterize_points", "a"): "documented: array modified in place",
    ("track.motion.Motion.evolve_particles", "particles"): "documented in-place update",
    ("track.motion.CartesianMotion.evolve_particles", "particles"): "as above",
    ("track.motion.CylindricalMotion.evolve_particles", "particles"): "as above",
    ("track.motion.TangentCartesianMotion.evolve_particles", "particles"): "as above",
    ("track.motion.TangentCylindricalMotion.evolve_particles", "particles"): "as above",
    ("optimize.ransac", "model"): "the model is the optimizer that is being fitted",
}


def retained(eng, cls):
    """Attributes that may hold an object handed to the constructor or a setter."""
    out = {}
    fs = [cls.find("__init__")]
    for c in cls.mro():
        fs += list(c.setters.values())
    for f in fs:
        if f is None:
            continue
        for (loc, step), v in eng.sums[f].heap.items():
            if loc.root == ("p", f.self_name()) and step != "[]" and not loc.path:
                for r in v.refs:
                    if r.root[0] == "p" and r.root[1] != f.self_name() and not r.path:
                        out.setdefault(step, set()).add(f"{f.short}({r.root[1]})")
    return out


def analyse(prog, eng, oblige, documented):
    for f in common.public_funcs(prog):
        muts = common.param_muts(eng, f)
        a = f.node.args
        names = f.params() + f.kwonly() + [x for x in (f.vararg(), f.kwarg()) if x]
        for p in names:
            if p == f.self_name():
                continue
            ms = muts.get(p, [])
            ok = (f.short, p) in documented or common.verdict(eng, f, ms)
            oblige("R1-parameter-unwritten", f"{f.short}({p})", ok,
                   "" if ok else f"argument `{p}` of {f.short} may be modified: "
                   + "; ".join(m.describe() for m in ms[:3]))
    for m in prog.modules.values():
        for c in m.classes.values():
            if c.name.startswith("_"):
                continue
            ret = retained(eng, c)
            if not ret:
                continue
            mro = c.mro()
            meths = {}
            for b in reversed(mro):
                for n, f in b.methods.items():
                    meths[n] = f
            for attr, srcs in sorted(ret.items()):
                bad = []
                for f in meths.values():
                    if not common.is_public(f):
                        continue
                    for mu in eng.sums[f].muts.values():
                        if mu.loc.root == ("p", f.self_name()) and mu.step == "[]" \
                                and mu.loc.path == (attr,) and not mu.lazy:
                            fc = mu.func.cls
                            if fc is not None and fc not in mro and c in fc.mro():
                                continue    # method of a subclass, not of this class
                            bad.append((f, mu))
                oblige("R2-retained-unwritten", f"{c.name}.{attr}",
                       False if any(not common.unclear(eng, f, mu) for f, mu in bad)
                       else not bad or None,
                       "; ".join(f"{f.short} writes into `{attr}`, which may be the "
                                 f"caller's own object kept by {sorted(srcs)}: "
                                 + mu.describe() for f, mu in bad[:3]))


def run(ctx):
    ctx.rule("R1-parameter-unwritten",
             "for every public function and every parameter other than the receiver: no "
             "location reachable from the parameter is written on any path, directly, "
             "through a view or alias, or through any callee (cache fills excepted)")
    ctx.rule("R2-retained-unwritten",
             "an attribute that may alias an object given to a constructor or property "
             "is rebound, never written through")
    analyse(ctx.prog, ctx.eng, ctx.oblige, DOCUMENTED)
    ctx.need("R1-parameter-unwritten", 500)
    ctx.need("R2-retained-unwritten", 15)
    prog, eng = common.fixture_engine("effects")
    got = {}
    analyse(prog, eng, lambda r, c, ok, m: got.__setitem__((r, c), ok), {})
    bad = {c for (r, c), ok in got.items() if not ok}
    want = {"sample.direct(a)", "sample.view(a)", "sample.callee(a)", "sample.alias(a)",
            "sample.listarg(items)", "Box.data", "sample.closure(a)"}
    ctx.selftest("writes found in the positive fixture", want <= bad)
    ctx.selftest("no writes reported in the negative fixture",
                 not any("clean" in c for c in bad))
    ctx.info["documented_in_place"] = {f"{k[0]}({k[1]})": v
                                       for k, v in DOCUMENTED.items()}
    ctx.assumptions += [
        "numpy/scipy/cv2 functions do not write their inputs except the tabulated "
        "in-place ones and out=/output= arguments",
        "user-supplied callbacks are not analysed",
    ]
