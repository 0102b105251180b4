"""C19: random sample consensus."""
import itertools

from ..vg import compare as C
from ..vg import term as T
from ..vg import value as V
from ..vg.interp import Diverges
from .c06 import lift, method
from .c18 import call

# Observations, fitted by their mean: y, and pairs whose fit fails
Y = (0.0, 0.3, 1.0, 1.1, 5.0)
Y2 = (2.0, 2.1, 9.0, 2.3, 9.2, 9.5)

MOST = 110      # orders drawn


def run(ctx):
    ctx.rule("R1-best", "the parameters are those refitted to the sample and its inliers "
             "of least mean error, among the samples with enough inliers")
    ctx.rule("R2-inliers", "the inliers are the observations whose error is within the "
             "maximum error for the parameters returned")
    ctx.rule("R3-samples", "samples are distinct, of the requested size, as many as "
             "requested or possible")
    ctx.rule("R4-rejected", "no sample with enough inliers, or a sample of all "
             "observations, is rejected")
    ctx.rule("R5-polynomial", "predictions and errors of a polynomial are those of its "
             "coefficients at the selected observations")
    samples(ctx)
    polynomial(ctx)
    ctx.need("R1-best", 3)
    ctx.need("R3-samples", 3)


class Stand:
    """Model of stand-in fits and errors, and a record of the fits."""

    def __init__(self, l, y, failing, orders):
        self.y, self.failing = y, failing
        self.l, self.fits, self.args = l, [], []
        self.orders, self.drawn = iter(orders), 0
        l.ext["numpy.random.shuffle"] = self.shuffle
        l.ext["numpy.random.permutation"] = self.permutation
        l.ext["numpy.random.choice"] = self.choice
        l.ext["random.sample"] = lambda l, a, k: self.next(a[0])[:a[1]]

    def next(self, x):
        n = len(self.y)
        if len(self.l.iterate(x)) != n:
            raise V.Unsupported("order of something else")
        self.drawn += 1
        if self.drawn > MOST:
            if len(self.l.pc) > self.l.base_pc:
                raise V.Unsupported("many draws")
            raise Diverges("every sample has been drawn, many times")
        return list(next(self.orders))

    def shuffle(self, l, args, kw):
        args[0].data[:] = self.next(args[0])

    def permutation(self, l, args, kw):
        return V.to_arr(self.next(range(args[0]) if isinstance(args[0], int) else args[0]))

    def choice(self, l, args, kw):
        x = range(args[0]) if isinstance(args[0], int) else args[0]
        if kw.get("replace", True) or "p" in kw:
            raise V.Unsupported("choice")
        size = args[1] if len(args) > 1 else kw.get("size")
        return V.to_arr(self.next(x)[:size])

    def obj(self):
        return V.Obj("model", {"size": len(self.y), "fit": V.Native(self.fit),
                               "errors": V.Native(self.errors)})

    def ints(self, index):
        if index is None or index == slice(None):
            return tuple(range(len(self.y)))
        ks = [self.l.number(x) for x in self.l.iterate(index)]
        if not all(T.is_num(k) for k in ks):
            raise V.Unsupported("indices")
        return tuple(int(k) for k in ks)

    def fit(self, index=None, **kw):
        ks = tuple(sorted(self.ints(index)))
        self.fits.append(list(ks))
        self.args.append(kw)
        return None if ks in self.failing else V.Obj("params", {"of": list(ks)})

    def errors(self, params, index=None):
        if not isinstance(params, V.Obj):
            raise V.Unsupported("parameters")
        m = mean([self.y[k] for k in params.attrs["of"]])
        a = V.to_arr([abs(m - self.y[k]) for k in self.ints(index)])
        a.kind = "f"
        return a


def mean(x):
    return sum(x) / len(x)


def specified(y, n, max_error, least, failing, drawn):
    """Sets of observations of the fits in order, of the result, and its inliers."""
    best, fits = None, []
    err = lambda of, k: abs(mean([y[i] for i in of]) - y[k])
    for s in drawn:
        s = tuple(sorted(s))
        fits.append(list(s))
        if s in failing:
            continue
        also = [k for k in range(len(y)) if k not in s and err(s, k) < max_error]
        if len(also) <= least:
            continue
        of = tuple(sorted((*s, *also)))
        fits.append(list(of))
        if of in failing:
            continue
        e = mean([err(of, k) for k in of])
        if best is None or e < best[0]:
            best = (e, of)
    if best is None:
        return fits, None, None
    return fits, list(best[1]), [k for k in range(len(y)) if err(best[1], k) <= max_error]


def draws(orders, n, count):
    out = []
    for o in orders[:MOST]:
        s = tuple(sorted(o[:n]))
        if s not in out:
            out.append(s)
        if len(out) == count:
            return out
    raise AssertionError


def comb(n, k):
    out = 1
    for i in range(k):
        out = out * (n - i) // (i + 1)
    return out


def orders(m, seed, count=400):
    """Orders of m indices: every one appears, with repeats."""
    every = list(itertools.permutations(range(m)))
    x, out = seed, []
    for _ in range(count):
        x = (1103515245 * x + 12345) % 2 ** 31
        out.append(every[(x >> 8) % len(every)])
        if x % 3 == 0:
            out.append(out[-1][::-1])
    return out


def samples(ctx):
    for y, n, max_error, least, iterations, failing, seed in itertools.product(
            (Y, Y2), (1, 2, 3), (0.25, 0.9), (-0.5, 0.5, 1.5), (1, 4, 100),
            ((), ((0,), (0, 1), (1, 2), (0, 1, 3))), (1, 2)):
        m = len(y)
        if iterations == 100 and (n == 3 or seed == 2) or (least < 0 and n == 3):
            continue
        os = orders(m, seed + 7 * n + m)
        drawn = draws(os, n, min(iterations, comb(m, n)))
        fits, of, inliers = specified(y, n, max_error, least, failing, drawn)
        name = (f"ransac[{m} observations,n={n},max_error={max_error},"
                f"min_inliers={least},iterations={iterations},"
                f"{len(failing)} failing fits,draws {seed}]")

        def body(l):
            s = Stand(l, y, failing, os)
            p, k = call(l, "ransac", s.obj(), n, max_error, least,
                        iterations=iterations, option=3)
            return p.attrs["of"], k, s.fits, s.args
        out = lift(ctx, body)
        if of is None:
            C.check_raises(ctx, "R4-rejected", name, out, "ValueError")
            continue
        C.check(ctx, "R1-best", name, lift(ctx, lambda l: body(l)[0]), of)
        C.check(ctx, "R2-inliers", name, lift(ctx, lambda l: body(l)[1]), V.to_arr(inliers))
        C.check(ctx, "R3-samples", name, lift(ctx, lambda l: body(l)[2]), fits)
        if seed == 1:
            C.check(ctx, "R1-best", name + ",arguments of fit",
                    lift(ctx, lambda l: body(l)[3]), [{"option": 3}] * len(fits))
    for n in (5, 6):
        def all_(l):
            s = Stand(l, Y, (), orders(5, 1))
            return call(l, "ransac", s.obj(), n, 0.5, 1)
        C.check_raises(ctx, "R4-rejected", f"ransac[sample of {n} of 5 observations]",
                       lift(ctx, all_), "ValueError")


def polynomial(ctx):
    r = "R5-polynomial"
    n = 4
    xy = V.sym_array("xy", (n, 2))
    for deg in (0, 1, 2, 3):
        p = V.sym_array("coef", (deg + 1,))
        for index in (None, [2, 0], [1]):
            ks = range(n) if index is None else index
            args = [] if index is None else [V.to_arr(index)]
            make = lambda l: l.construct(l.prog.cls("Polynomial"), [xy.copy()],
                                         {"deg": deg})

            def value(x):
                out = 0
                for c in p.data:
                    out = T.add(T.mul(out, x), c)
                return out
            pred = [value(xy.data[k, 0]) for k in ks]
            err = [T.app("abs", T.sub(v, xy.data[k, 1])) for v, k in zip(pred, ks)]
            for name, want in (("predict", pred), ("errors", err)):
                w = V.to_arr(want)
                w.kind = "f"
                C.check(ctx, r, f"Polynomial.{name}[degree {deg},index={index}]", lift(
                    ctx, lambda l: method(l, make(l), name, p.copy(), *args)), w)
        C.check(ctx, r, f"Polynomial.size[degree {deg}]", lift(
            ctx, lambda l: l.getattr(make(l), "size")), n)
        for index in (None, [2, 0, 3]):
            def fit(l):
                got = []
                l.ext["numpy.polyfit"] = lambda l, a, k: got.append(
                    [*a, *([k["deg"]] if "deg" in k else [])]) or V.to_arr([1.0, 2.0])
                out = method(l, make(l), "fit", *([] if index is None else
                                                  [V.to_arr(index)]))
                return out, got
            ks = list(range(n)) if index is None else index
            col = lambda c: V.Arr(xy.data[ks, c].copy(), (len(ks),), "f")
            C.check(ctx, r, f"Polynomial.fit[degree {deg},index={index}]",
                    lift(ctx, fit), (V.to_arr([1.0, 2.0]), [[col(0), col(1), deg]]))
