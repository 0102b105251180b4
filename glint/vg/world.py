"""Stand-ins for the world outside of the program: files, and worker processes."""
import posixpath

from . import npmod, term as T
from .interp import ChainEnv, PyError
from .value import Arr, Closure, Native, Obj, Unsupported, is_scalar


class Files:
    """A file system of named values. Reading returns, and writing stores, a copy."""

    def __init__(self, l, files=None, folders=None):
        """Missing folders are created by writing unless `folders` are those there are."""
        self.l = l
        self.folders = None if folders is None else {norm(p) for p in folders}
        self.packed = set()
        self.files = dict(files or {})
        self.reads, self.writes = [], []
        x = l.ext
        for n in ("join", "basename", "dirname", "splitext", "normpath", "split"):
            x["os.path." + n] = self.pathfn(getattr(posixpath, n))
        x["os.path.isfile"] = self.pathfn(self.isfile)
        x["os.path.exists"] = self.pathfn(lambda p: self.isfile(p) or self.isdir(p))
        x["os.path.isdir"] = self.pathfn(self.isdir)
        x["os.makedirs"] = lambda l, args, kw: self.mkdir(
            l.resolve(args[0]), parents=True, **{k: l.resolve(v) for k, v in kw.items()
                                                 if k == "exist_ok"})
        x["os.remove"] = self.pathfn(lambda p: self.files.pop(norm(p), None))
        x["builtins.open"] = self.open
        x["gzip.open"] = lambda l, args, kw: self.open(l, args, kw, packed=True)
        x["pickle.dump"] = self.dump
        x["pickle.load"] = self.load
        x["pathlib.Path"] = lambda l, args, kw: self.path(
            self.joined(args))

    def joined(self, args):
        return self.pathfn(posixpath.join)(self.l, args, {})

    @staticmethod
    def pathfn(fn):
        def call(l, *args):
            args = [l.resolve(a) for a in (args[0] if args and isinstance(
                args[0], (list, tuple)) else args)]
            if any(isinstance(a, Obj) and a.cls == "Path" for a in args):
                args = [a.attrs["_path"] if isinstance(a, Obj) else a for a in args]
            if any(a is None or is_scalar(a) for a in args):
                raise PyError("TypeError: unsupported operand types for a path")
            if not all(isinstance(a, str) for a in args):
                raise Unsupported("path of unknown value")
            return fn(*args)
        return lambda l, args, kwargs: call(l, *args)

    def isfile(self, p):
        return norm(p) in self.files

    def isdir(self, p):
        if self.folders is not None and norm(p) in self.folders | {".", "/"}:
            return True
        return any(f.startswith(norm(p) + "/") for f in self.files)

    def mkdir(self, p, mode=0o777, parents=False, exist_ok=False):
        if isinstance(p, Obj) and p.cls == "Path":
            p = p.attrs["_path"]
        if self.folders is None:
            return
        p = norm(p)
        if p in self.folders or p in (".", "/"):
            if not exist_ok:
                raise PyError("FileExistsError")
            return
        up = posixpath.dirname(p) or "."
        if not self.isdir(up):
            if not parents:
                raise PyError("FileNotFoundError")
            self.mkdir(up, parents=True, exist_ok=True)
        self.folders.add(p)

    def create(self, p):
        if self.folders is not None and not self.isdir(posixpath.dirname(norm(p)) or "."):
            raise PyError("FileNotFoundError")

    def path(self, p, depth=0):
        o = Obj("Path", {"_path": p})
        a = o.attrs
        a["name"] = posixpath.basename(p)
        a["stem"], a["suffix"] = posixpath.splitext(a["name"])
        a["mkdir"] = Native(lambda *a, **k: self.mkdir(p, *a, **k))
        a["exists"] = Native(lambda: self.isfile(p) or self.isdir(p))
        a["is_file"] = Native(lambda: self.isfile(p))
        a["is_dir"] = Native(lambda: self.isdir(p))
        a["joinpath"] = Native(lambda *q: self.path(posixpath.join(p, *q)))
        a["open"] = Native(lambda mode="r", **k: self.open(self.l, [p, mode], {}))
        a["write_text"] = Native(lambda data, **k: self.write_all(p, "w", data))
        a["read_text"] = Native(lambda **k: self.open(
            self.l, [p, "r"], {}).attrs["read"].fn())
        if depth < 4:
            a["parent"] = self.path(posixpath.dirname(p), depth + 1)
        return o

    def write_all(self, p, mode, data):
        self.open(self.l, [p, mode], {}).attrs["write"].fn(data)

    def open(self, l, args, kwargs, packed=False):
        path = args[0] if args else kwargs.get("file", kwargs.get("filename"))
        path = l.resolve(path)
        if isinstance(path, Obj) and path.cls == "Path":
            path = path.attrs["_path"]
        if not isinstance(path, str):
            raise Unsupported("path of unknown value")
        mode = l.resolve(args[1] if len(args) > 1 else kwargs.get(
            "mode", "rb" if packed else "r"))
        if mode[0] in "wax":
            self.create(path)
            if mode[0] == "x" and self.isfile(path):
                raise PyError("FileExistsError")
            if mode[0] == "w":
                (self.packed.add if packed else self.packed.discard)(norm(path))
                if l.cond(l.base_pc) is True:
                    self.files[norm(path)] = ""
        elif packed != (norm(path) in self.packed) and self.isfile(path):
            raise PyError("OSError: not a gzipped file")
        if mode[0] in "ra" and not self.isfile(path):
            if mode[0] == "r":
                raise PyError("FileNotFoundError")
        fp = Obj("file", {"name": path, "mode": mode})
        fp.attrs["close"] = Native(lambda: None)
        fp.attrs["flush"] = Native(lambda: None)
        fp.attrs["read"] = Native(lambda *a: self.get(path))
        fp.attrs["write"] = Native(lambda v: self.write(fp, path, mode, v))
        fp.packed = packed
        return fp

    def write(self, fp, path, mode, v):
        v = self.l.resolve(v)
        if not isinstance(v, str):
            raise Unsupported("writing unknown text")
        if self.l.cond(self.l.base_pc) is not True:
            raise Unsupported("conditional write to a file")
        if "b" in mode or fp.packed and "t" not in mode:
            raise PyError("TypeError: a bytes-like object is required")
        if mode[0] == "r" and "+" not in mode:
            raise PyError("TypeError: write() argument: file is not writable")
        old = self.files.get(norm(path), "")
        at = getattr(fp, "at", len(old) if mode[0] == "a" else 0)
        if not isinstance(old, str):
            if at or mode[0] != "w":
                raise Unsupported("text added to another file")
            old = ""
        fp.at = at + len(v)
        self.put(path, old[:at] + v + old[fp.at:])

    def get(self, path):
        self.reads.append(norm(path))
        return npmod.deep(self.l, self.files[norm(path)])

    def put(self, path, v):
        self.writes.append(norm(path))
        self.files[norm(path)] = npmod.deep(self.l, v)

    def dump(self, l, args, kwargs):
        obj = l.resolve(args[0] if args else kwargs["obj"])
        fp = l.resolve(args[1] if len(args) > 1 else kwargs["file"])
        if not isinstance(fp, Obj) or fp.cls != "file":
            raise Unsupported("pickle to an unknown file")
        if l.cond(l.base_pc) is not True:
            raise Unsupported("conditional write to a file")
        if not fp.packed and "b" not in fp.attrs["mode"] or "t" in fp.attrs["mode"]:
            raise PyError("TypeError: write() argument must be str, not bytes")
        self.put(fp.attrs["name"], obj)

    def load(self, l, args, kwargs):
        fp = l.resolve(args[0] if args else kwargs["file"])
        if not isinstance(fp, Obj) or fp.cls != "file":
            raise Unsupported("pickle from an unknown file")
        if not fp.packed and "b" not in fp.attrs["mode"] or "t" in fp.attrs["mode"]:
            raise PyError("UnicodeDecodeError")
        return self.get(fp.attrs["name"])


def norm(p):
    return posixpath.normpath(p)


def fork(l, fn, memo):
    """The function as a worker process sees it: with a copy of all it refers to."""
    if isinstance(fn, Closure):
        return Closure(fn.node, fork_env(l, fn.env, memo), fn.func)
    return npmod.deep(l, fn, memo)


def fork_env(l, env, memo):
    if id(env) in memo:
        return memo[id(env)]
    if isinstance(env, ChainEnv):
        new = ChainEnv.__new__(ChainEnv)
        new.outer = fork_env(l, env.outer, memo)
        new.nonlocals = env.nonlocals
    elif type(env) is dict:
        new = {}
    else:
        raise Unsupported("environment of a worker")
    memo[id(env)] = new
    for k in dict.keys(env):
        v = dict.__getitem__(env, k)
        v = fork(l, v, memo) if isinstance(v, Closure) else npmod.deep(l, v, memo)
        dict.__setitem__(new, k, v)
    return new


def map_reduce(l, backend=None, np=None, **kw):
    """Map over a sequence: in order, by worker processes unless np is zero.

    A worker works on a copy of the program state, and its results are copied back.
    """
    np = l.resolve(np)

    def run(func, sequence, reduce=None, star=False, minlength=0):
        out = []
        serial = np is not None and not isinstance(np, T.Node) and not np
        for x in l.iterate(sequence):
            memo = {}
            f = func if serial else fork(l, func, memo)
            if not serial:
                x = npmod.deep(l, x, memo)
            v = l.call(f, l.iterate(x) if star else [x], {})
            if not serial:
                v = npmod.deep(l, v)
            if reduce is not None:
                v = l.call(reduce, list(v) if isinstance(v, tuple) else [v], {})
            out.append(v)
        return out
    o = Obj("MapReduce", {"map": Native(run), "np": np})
    for n in ("ordered", "critical"):
        o.attrs[n] = Obj("lock")
    return o
