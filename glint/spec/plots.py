"""A stand-in for matplotlib: what is drawn, where, on which axes."""
import inspect

from ..vg import npmod, term as T, value as V
from ..vg.interp import PyError
from ..vg.value import Native, Obj, Unsupported

ALIAS = {"c": "color", "fc": "facecolor", "ec": "edgecolor", "lw": "linewidth",
         "ls": "linestyle", "ms": "markersize"}


def column(v):
    """Values as a list of columns."""
    if isinstance(v, (list, tuple)) or not isinstance(v, V.Arr):
        v = V.to_arr(v)
    if any(not isinstance(d, int) for d in v.dims):
        raise Unsupported("drawing of an unknown number of points")
    if v.ndim == 0:
        return [[v.data.item()]]
    if v.ndim == 1:
        return [v.data.tolist()]
    return v.data.T.tolist()


def flat(v):
    return None if v is None else [x for c in column(v) for x in c]


def called(fn, *args, **kw):
    """Call it, failing as Python does if arguments do not match its signature."""
    try:
        inspect.signature(fn).bind(*args, **kw)
    except TypeError as e:
        raise PyError(f"TypeError: {e}")
    return fn(*args, **kw)


class Plots:
    """Installs the stand-in."""

    def __init__(self, l, figures=0):
        self.l = l
        self.figures = figures
        self.axes = []
        self.artists = []
        self.current = None
        for n in ("plot", "scatter", "quiver", "errorbar", "fill_between", "imshow",
                  "text"):
            self.put("pyplot." + n, lambda *a, n=n, **k: called(
                getattr(self, n), self.gca(), *a, **k))
        for n in ("gca", "gcf", "subplots", "get_fignums", "xlim", "ylim", "figure"):
            self.put("pyplot." + n, getattr(self, n))
        for n in ("show", "close", "draw", "title", "xlabel", "ylabel", "colorbar",
                  "tight_layout", "pause", "legend"):
            self.put("pyplot." + n, lambda *a, **k: None)
        self.put("patches.Rectangle", self.rectangle)
        self.put("animation.FuncAnimation", self.animation)
        for n in ("gnuplot2", "viridis", "gray", "jet"):
            npmod.EXT_CONST["matplotlib.pyplot.cm." + n] = n
            npmod.EXT_CONST["matplotlib.cm." + n] = n

    def put(self, name, fn):
        l = self.l
        l.ext["matplotlib." + name] = lambda l, args, kw: fn(
            *[l.resolve(a) for a in args], **{k: l.resolve(v) for k, v in kw.items()})

    def plain(self):
        if self.l.cond(self.l.base_pc) is not True:
            raise Unsupported("conditional drawing")

    # -- figures ----------------------------------------------------------------------
    def get_fignums(self):
        return [1] if self.figures else []

    def new_axes(self):
        ax = Obj("Axes", {})
        ax.lim = {"x": None, "y": None}
        for n in ("plot", "scatter", "quiver", "errorbar", "fill_between", "imshow",
                  "text"):
            ax.attrs[n] = Native(lambda *a, n=n, **k: called(
                getattr(self, n), ax, *[self.l.resolve(x) for x in a],
                **{x: self.l.resolve(v) for x, v in k.items()}))
        ax.attrs["add_patch"] = Native(lambda p: self.add(ax, self.l.resolve(p), "patches"))
        ax.attrs["set_xlim"] = Native(lambda *a, **k: self.limit(ax, "x", *a, **k))
        ax.attrs["set_ylim"] = Native(lambda *a, **k: self.limit(ax, "y", *a, **k))
        for n in ("set_title", "set_xlabel", "set_ylabel", "set_aspect", "grid",
                  "set_xticks", "set_yticks", "axis", "legend"):
            ax.attrs[n] = Native(lambda *a, **k: None)
        for n in ("transAxes", "transData"):
            ax.attrs[n] = n
        ax.attrs.update(collections=[], lines=[], patches=[], texts=[], images=[])
        self.axes.append(ax)
        return ax

    def gca(self):
        if self.current is None:
            self.current = self.new_axes()
            self.figures = max(self.figures, 1)
        return self.current

    def gcf(self):
        self.gca()
        return Obj("Figure", {"axes": list(self.axes)})

    def figure(self, *args, **kw):
        self.figures += 1
        self.current = None
        return Obj("Figure", {"axes": []})

    def subplots(self, nrows=1, ncols=1, **kw):
        self.plain()
        self.figures += 1
        self.options = kw
        if not isinstance(nrows, int) or not isinstance(ncols, int) or nrows != 1:
            raise Unsupported("subplots")
        axes = [self.new_axes() for _ in range(ncols)]
        self.current = axes[-1]
        squeeze = kw.get("squeeze", True)
        return Obj("Figure", {"axes": list(axes)}), (
            axes[0] if ncols == 1 and squeeze else axes if squeeze else [axes])

    def limit(self, ax, which, *args, **kw):
        self.plain()
        r = self.l.resolve
        names = (("left", "right"), ("bottom", "top"))[which == "y"]
        args = [r(a) for a in args]
        if len(args) == 1 and not kw:
            a = args[0]
            args = self.l.iterate(a) if isinstance(a, (list, tuple, V.Arr)) else [a, None]
        new = dict(zip(names, args))
        for k, v in kw.items():
            k = {"xmin": "left", "xmax": "right", "ymin": "bottom", "ymax": "top"}.get(k, k)
            if k in names:
                new[k] = r(v)
            elif k not in ("auto", "emit"):
                raise PyError("TypeError: limits")
        old = ax.lim[which] or [None, None]
        ax.lim[which] = [new.get(n) if new.get(n) is not None else o
                         for n, o in zip(names, old)]
        return tuple(ax.lim[which])

    def xlim(self, *args, **kw):
        return self.limit(self.gca(), "x", *args, **kw)

    def ylim(self, *args, **kw):
        return self.limit(self.gca(), "y", *args, **kw)

    # -- artists ----------------------------------------------------------------------
    def artist(self, kind, state, style):
        self.plain()
        o = Obj("Artist", {})
        o.kind, o.state = kind, state
        o.style = {ALIAS.get(k, k): v for k, v in style.items() if k != "data"}
        o.axes = None
        a = o.attrs
        a["remove"] = Native(lambda: self.remove(o))

        def setter(fn):
            def set(*args, **kw):
                self.plain()
                fn(*[self.l.resolve(x) for x in args],
                   **{k: self.l.resolve(v) for k, v in kw.items()})
            return Native(set)

        def get(k):
            return Native(lambda: o.state[k])
        for n in ("set_zorder", "set_alpha", "set_visible", "set_clim", "set_cmap",
                  "set_animated", "autoscale"):
            a[n] = Native(lambda *args, **kw: None)
        a["set_color"] = setter(lambda v: o.style.update(color=v))

        def data(x=None, y=None):
            if y is None and isinstance(x, (tuple, list)):
                x, y = x
            state.update(x=column(x)[0], y=column(y)[0])
        if kind == "line":
            a["set_data"] = setter(data)
            a["set_xdata"] = setter(lambda x: state.update(x=column(x)[0]))
            a["set_ydata"] = setter(lambda y: state.update(y=column(y)[0]))
        elif kind == "image":
            a["set_data"] = a["set_array"] = setter(lambda z: state.update(image=z))
            a["set_extent"] = setter(lambda e, **k: state.update(
                extent=self.l.iterate(e)))
            a["get_extent"] = get("extent")
            a["get_array"] = get("image")
        elif kind == "text":
            a["set_text"] = setter(lambda s: state.update(text=s))
            a["set_x"] = setter(lambda x: state.update(x=x))
            a["set_y"] = setter(lambda y: state.update(y=y))
            a["set_position"] = setter(lambda p: state.update(
                x=self.l.iterate(p)[0], y=self.l.iterate(p)[1]))
            a["get_text"] = get("text")
        elif kind == "points":
            def offsets(v):
                c = column(v)
                state.update(x=c[0], y=c[1])
            a["set_offsets"] = setter(offsets)
            a["set_array"] = setter(lambda v: state.update(c=v))
        elif kind == "arrows":
            def uvc(u, v, c=None):
                state.update(u=flat(u), v=flat(v), c=state["c"] if c is None else c)
            a["set_UVC"] = setter(uvc)
        return o

    def add(self, ax, o, group):
        self.plain()
        o.axes = ax
        o.group = group
        ax.attrs[group].append(o)
        self.artists.append(o)
        return o

    def remove(self, o):
        self.plain()
        o.axes.attrs[o.group].remove(o)
        self.artists.remove(o)

    def plot(self, ax, *args, **style):
        args = list(args)
        if args and isinstance(args[-1], str):
            style["fmt"] = args.pop()
        if len(args) != 2:
            raise Unsupported("plot of several lines")
        xs, ys = column(args[0]), column(args[1])
        if len(xs[0]) != len(ys[0]):
            raise PyError("ValueError: x and y must have same first dimension")
        n = max(len(xs), len(ys))
        if {len(xs), len(ys)} - {1, n}:
            raise PyError("ValueError: x and y have different numbers of columns")
        return [self.add(ax, self.artist("line", {"x": xs[k % len(xs)], "y": ys[
            k % len(ys)]}, style), "lines") for k in range(n)]

    def scatter(self, ax, x, y, s=None, c=None, **style):
        x, y = flat(x), flat(y)
        if len(x) != len(y):
            raise PyError("ValueError: x and y must be the same size")
        if isinstance(c, (str, type(None))):
            if c is not None:
                style["color"] = c
            c = None
        return self.add(ax, self.artist("points", {
            "x": x, "y": y, "c": c, "s": s}, style), "collections")

    def quiver(self, ax, *args, **style):
        if len(args) not in (4, 5):
            raise Unsupported("quiver")
        x, y, u, v = (flat(a) for a in args[:4])
        if len({len(a) for a in (x, y, u, v)}) != 1:
            raise PyError("ValueError: arrows of different sizes")
        return self.add(ax, self.artist("arrows", {
            "x": x, "y": y, "u": u, "v": v, "c": args[4] if len(args) > 4 else None}, style),
            "collections")

    def errorbar(self, ax, x, y, yerr=None, xerr=None, fmt=None, **style):
        o = self.artist("errors", {"x": flat(x), "y": flat(y), "xerr": flat(xerr),
                                   "yerr": flat(yerr)}, style)
        return self.add(ax, o, "lines")

    def fill_between(self, ax, x, y1, y2=0, **style):
        a, b = flat(y1), flat(y2)
        if len(a) != len(b):
            raise Unsupported("a band from a constant")
        under = [T.app("lt", p, q) for p, q in zip(a, b)]
        return self.add(ax, self.artist("band", {
            "x": flat(x), "low": [T.ite(c, p, q) for c, p, q in zip(under, a, b)],
            "high": [T.ite(c, q, p) for c, p, q in zip(under, a, b)]}, style), "collections")

    def imshow(self, ax, X, origin="upper", extent=None, **style):
        if extent is not None:
            extent = self.l.iterate(extent)
        elif isinstance(X, V.Arr):
            n, m = X.dims[:2]
            extent = [-0.5, m - 0.5, *((n - 0.5, -0.5) if origin == "upper" else
                                       (-0.5, n - 0.5))]
        o = self.artist("image", {"image": X, "extent": extent}, style)
        o.origin = origin
        return self.add(ax, o, "images")

    def text(self, ax, x, y, s, **style):
        return self.add(ax, self.artist("text", {"x": x, "y": y, "text": s}, style),
                        "texts")

    def rectangle(self, xy, width, height, angle=0.0, **style):
        x, y = self.l.iterate(xy)
        # (corners, in any order)
        return self.artist("box", {"x": [x, T.add(x, width)], "y": [y, T.add(y, height)]},
                           style)

    def animation(self, fig, func, frames=None, *args, **kw):
        if args:
            raise Unsupported("arguments of an animation")
        return Obj("Animation", {"frames": frames, "options": kw, "function": func})

    # -- what is drawn ----------------------------------------------------------------
    def drawn(self, keep=(), kinds=None):
        """For each axes, its limits and its artists with some of their styles."""
        out, self.order = [], []
        for ax in self.axes:
            shown = []
            for o in self.artists:
                if o.axes is not ax or (kinds and o.kind not in kinds):
                    continue
                s = dict(o.state)
                if o.kind == "image" and s["extent"] is not None:
                    # x of the left and right edges, y of the first and last rows
                    a, b, c, d = s.pop("extent")
                    s["columns"] = [a, b]
                    s["rows"] = [d, c] if o.origin == "upper" else [c, d]
                shown.append([o.kind, s, {k: o.style[k] for k in keep if k in o.style}])
                self.order.append(o)
            out.append([ax.lim["x"], ax.lim["y"], shown])
        out, places = arranged(out)
        self.order = [self.order[k] for k in places]
        return out

    def both(self, result, *args):
        """What is drawn, and results with artists replaced by their places."""
        out = self.drawn(*args)
        return out, self.named(result)

    def named(self, result):
        r = self.l.resolve(result)
        if isinstance(r, dict):
            return {k: self.named(v) for k, v in r.items()}
        if isinstance(r, (list, tuple)):
            return [self.named(v) for v in r]
        if isinstance(r, Obj) and r in self.order:
            return self.order.index(r)
        return r


def arranged(axes):
    """Artists of each axes in order of their kinds and styles, and where they were."""
    out, places, at = [], [], 0
    for x, y, shown in axes:
        k = sorted(range(len(shown)), key=lambda i: (
            shown[i][0], repr(sorted(shown[i][2].items())),
            len(shown[i][1].get("x") or ())))
        out.append([x, y, [shown[i] for i in k]])
        places += [at + i for i in k]
        at += len(shown)
    return out, places


def renamed(places, v):
    """Places of artists after they are arranged."""
    if isinstance(v, dict):
        return {k: renamed(places, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [renamed(places, x) for x in v]
    return places.index(v) if isinstance(v, int) else v
