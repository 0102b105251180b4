"""C02: reading from an object does not change it."""
from . import common

# Operations that exist to change their object: method -> state they may write.
# Paths are attribute chains from the object; "[]" is an element or array content.
MUTATORS = {
    "Camera": {"reset": ["_vector"], "idealize": ["_vector[]"], "resize": ["_vector[]"]},
    "Points": {"resize": ["_imgsz", "uv", "uv[]", "uvs[]", "cam._vector"]},
    "Lines": {"resize": ["_imgsz", "uv", "uv[]", "uvs[]", "cam._vector"]},
    "Matches": {"resize": ["_imgszs[]", "uvs[]", "uvs", "_imgszs", "cams[]._vector"],
                "filter": ["uvs", "weights", "xys"]},
    "Cameras": {
        "update_params": ["cam_breaks", "cam_masks", "group_breaks", "group_masks",
                          "params", "sparsity", "scales"],
        "set_cameras": ["vectors", "cams[]._vector"],
        "reset_cameras": ["cams[]._vector"],
        # the evaluation of a parameter set goes through the cameras (see C03)
        "predicted": ["vectors", "cams[]._vector"],
        "residuals": ["vectors", "cams[]._vector"],
        "errors": ["vectors", "cams[]._vector"],
        "plot": ["vectors", "cams[]._vector"],
        "fit": ["cam_breaks", "cam_masks", "group_breaks", "group_masks", "params",
                "vectors", "cams[]._vector", "sparsity", "scales"],
    },
    "ObserverCameras": {
        "set_cameras": ["observer.images[].cam"],
        "reset_cameras": ["observer.images[].cam"],
        "fit": ["observer.images[].cam"],
        "build_keypoints": ["matcher.keypoints"],
        "build_matches": ["matches", "matcher.keypoints", "matcher.matches"],
    },
    "KeypointMatcher": {
        "build_keypoints": ["keypoints"],
        "build_matches": ["keypoints", "matches"],
        "convert_matches": ["matches"],
        "filter_matches": ["matches"],
        "drop_images": ["images", "matches", "keypoints"],
    },
    "Grid": {"resize": ["_size"],
             "shift": ["_X", "_Y", "_x", "_xlim", "_y", "_ylim"]},
    "Raster": {
        "resample": ["_array", "_x", "_X", "_xlim", "_y", "_Y", "_ylim"],
        "crop": ["_array", "_x", "_X", "_xlim", "_y", "_Y", "_ylim"],
        "resize": ["_array", "_x", "_X", "_y", "_Y"],
        "shift": ["_X", "_Y", "_array", "_x", "_xlim", "_y", "_ylim"],
        "fill_circle": ["_array"],
        "fill_crevasses": ["_array"],
        "crop_to_data": ["_array", "_x", "_xlim", "_y", "_ylim"],
    },
    "Converter": {"optimize_cam": ["cam._vector"], "optimize_xcam": ["xcam"]},
    "Tracker": {
        "initialize_weights": ["weights"], "update_weights": ["weights"],
        "resample_particles": ["particles", "weights"],
        "track": ["particles", "templates", "weights"],
        "reset": ["particles", "templates", "weights"],
        "initialize_template": ["templates"],
    },
}


def path_of(mu):
    out = ""
    for s in tuple(mu.loc.path) + (mu.step,):
        out += "[]" if s == "[]" or isinstance(s, int) else f".{s}"
    return out.lstrip(".")


def allowed(path, prefixes):
    path = path.replace("[]", "")
    return any(path == p or path.startswith(p + ".")
               for p in (q.replace("[]", "") for q in prefixes))


def analyse(prog, eng, oblige, table):
    for m in prog.modules.values():
        for c in m.classes.values():
            if c.name.startswith("_"):
                continue
            fs = dict(c.methods)
            for n, f in fs.items():
                if n == "__init__" or not common.is_public(f):
                    continue
                if f.kind != "method":
                    continue
                pre = []
                for b in c.mro():
                    pre = pre or table.get(b.name, {}).get(n, [])
                bad = []
                for mu in eng.sums[f].muts.values():
                    if mu.lazy or mu.loc.root != ("p", f.self_name()):
                        continue
                    if common.is_cache_write(eng, mu):
                        continue
                    if not allowed(path_of(mu), pre):
                        bad.append(mu)
                rule = "R2-mutator-scope" if pre else "R1-query-pure"
                oblige(rule, f"{c.name}.{n}", common.verdict(eng, f, bad),
                       f"{f.short} may change the state of its object: "
                       + "; ".join(b.describe() for b in bad[:3]) if bad else "")
    for f in common.public_funcs(prog):
        bad = [mu for mu in eng.sums[f].muts.values()
               if mu.loc.root[0] == "g" and not mu.lazy and
               not str(mu.loc.root[-1]).startswith("_")]
        oblige("R3-no-global-state", f.short, not bad,
               f"{f.short} may change module state: "
               + "; ".join(b.describe() for b in bad[:3]) if bad else "")


def run(ctx):
    ctx.rule("R1-query-pure",
             "a public method or property that is not a documented mutator writes no "
             "state of its receiver (lazy caches excepted), directly or via callees")
    ctx.rule("R2-mutator-scope",
             "a documented mutator writes only the state it is documented to change")
    ctx.rule("R3-no-global-state", "no public function writes module-level state")
    analyse(ctx.prog, ctx.eng, ctx.oblige, MUTATORS)
    ctx.need("R1-query-pure", 90)
    ctx.need("R2-mutator-scope", 25)
    prog, eng = common.fixture_engine("effects")
    got = {}
    analyse(prog, eng, lambda r, c, ok, m: got.__setitem__((r, c), ok), {})
    ctx.selftest("stateful query found in the fixture",
                 got.get(("R1-query-pure", "Box.query")) is False)
    ctx.selftest("in-place scaling found in the fixture",
                 got.get(("R1-query-pure", "Box.scale")) is False)
    ctx.selftest("pure method accepted in the fixture",
                 got.get(("R1-query-pure", "Box.clean_dup")) is True)
