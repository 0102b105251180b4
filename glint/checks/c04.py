"""C04: copies share no mutable state with the original."""
from . import common

COPIERS = [("Camera", "copy"), ("Grid", "copy"), ("Raster", "copy"),
           ("Camera", "to_array"),
           ("Camera", "to_dict"), ("Raster", "rasterize"), ("Raster", "gradient"),
           ("Raster", "sample")]


def aliases(eng, f, root):
    """(path in the result, caller-visible location) pairs that may be one object."""
    s = eng.sums[f]
    todo = [((), l, s.ret.typ) for l in s.ret.refs]
    seen, out = set(), set()
    while todo:
        path, l, typ = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l.root[0] != "f":
            if l.root == root:
                out.add((path, l))
            continue
        for (k, step), v in s.heap.items():
            if k == l:
                todo += [(path + (str(step),), r, v.typ) for r in v.refs]
    return sorted(out, key=str)


# Saved states: (class, method, saved attribute, live state it must not share).
# Live state is a path from the receiver or from a parameter.
SNAPSHOTS = [
    ("Camera", "__init__", "_original_vector", [("self", ("_vector",))]),
    ("Camera", "copy", "_original_vector", [("self", ("_original_vector",)),
                                            ("self", ("_vector",))]),
    ("Camera", "reset", "_vector", [("self", ("_original_vector",))]),
    ("Points", "__init__", "_position", [("cam", ("_vector",))]),
    ("Points", "__init__", "_imgsz", [("cam", ("_vector",))]),
    ("Points", "resize", "_imgsz", [("self", ("cam", "_vector"))]),
    ("Lines", "__init__", "_position", [("cam", ("_vector",))]),
    ("Lines", "__init__", "_imgsz", [("cam", ("_vector",))]),
    ("Matches", "__init__", "_imgszs", [("cams", ("[]", "_vector"))]),
    ("Matches", "resize", "_imgszs", [("self", ("cams", "[]", "_vector"))]),
    ("Cameras", "set_cameras", "vectors", [("self", ("cams", "[]", "_vector"))]),
    ("Cameras", "__init__", "vectors", [("cams", ("[]", "_vector"))]),
    ("ObserverCameras", "__init__", "viewdirs",
     [("observer", ("images", "[]", "cam", "_vector"))]),
]


def content(heap, loc, depth=3):
    """Locations whose buffers the object at `loc` is, or holds (list of arrays)."""
    out, todo = set(), [(loc, 0)]
    while todo:
        l, d = todo.pop()
        if l in out:
            continue
        out.add(l)
        if d < depth:
            for (k, step), v in heap.items():
                if k == l and (step == "[]" or isinstance(step, int)):
                    todo += [(r, d + 1) for r in v.refs]
    return out


def snapshot_shared(eng, f, attr, live):
    """Locations shared by the saved attribute and the live state after `f`."""
    from ..effects import Loc
    s = eng.sums[f]
    sn = f.self_name()
    holders = [Loc(("p", sn), ())]
    if f.name == "copy":
        holders = [l for l in s.ret.refs if l.root[0] == "f"]
    saved = set()
    found = False
    for h in holders:
        v = s.heap.get((h, attr))
        inner = Loc(h.root, h.path + (attr,))
        if v is None and not any(k == inner for k, _ in s.heap):
            continue
        found = True
        for r in (v.refs if v is not None else {inner}):
            saved |= content(s.heap, r)
    if not found:
        return None
    shared = set()
    for root, path in live:
        rn = sn if root == "self" else root
        for h in (holders if (root == "self" and f.name != "copy") else
                  [Loc(("p", rn), ())]):
            # follow what the function itself stored, else the incoming location
            cur = {h}
            for step in path:
                nxt = set()
                for l in cur:
                    v = s.heap.get((l, step))
                    if v is not None:
                        nxt |= set(v.refs)
                    if l.root[0] != "f" or f.name == "copy":
                        nxt.add(Loc(l.root, l.path + (step,)))
                cur = nxt
            shared |= cur & saved
        if f.name == "copy":
            for h in holders:
                if path[-1] != attr:
                    v = s.heap.get((h, path[-1]))
                    own = set(v.refs) if v is not None else {
                        Loc(h.root, h.path + (path[-1],))}
                    shared |= own & saved
    return shared


def run(ctx):
    ctx.rule("R2-snapshot-independent",
             "a saved state (original camera vector, image size at creation, initial "
             "view directions...) shares no array with the live state it was taken from")
    for cn, mn, attr, live in SNAPSHOTS:
        f = ctx.prog.method(cn, mn)
        sh = snapshot_shared(ctx.eng, f, attr, live)
        if sh is None:
            ctx.oblige("R2-snapshot-independent", f"{cn}.{mn}:{attr}", None,
                       "attribute not stored by this function")
            continue
        ctx.oblige("R2-snapshot-independent", f"{cn}.{mn}:{attr}", not sh,
                   f"`{attr}` saved by {f.short} may share memory with live state: "
                   + ", ".join(f"{l.root[-1]}{''.join('.' + str(x) for x in l.path)}"
                               for l in sorted(sh, key=str)[:3]))
    ctx.rule("R1-fresh-result",
             "no object reachable from the returned copy may be (or be a view of) a "
             "mutable object reachable from the original")
    for cn, mn in COPIERS:
        f = ctx.prog.method(cn, mn)
        al = aliases(ctx.eng, f, ("p", f.self_name()))
        ctx.oblige("R1-fresh-result", f"{cn}.{mn}", not al,
                   "; ".join(f"result{''.join('.' + p for p in path)} may be "
                             f"{l.root[1]}{''.join('.' + str(p) for p in l.path)}"
                             for path, l in al[:4]))
    ctx.need("R1-fresh-result", len(COPIERS))
    prog, eng = common.fixture_engine("effects")
    f = prog.method("Box", "leak")
    ctx.selftest("shared array found in the fixture",
                 bool(aliases(eng, f, ("p", "self"))))
    f = prog.method("Box", "clean_dup")
    ctx.selftest("independent copy accepted in the fixture",
                 not aliases(eng, f, ("p", "self")))
