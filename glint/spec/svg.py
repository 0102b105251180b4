"""Vertices of SVG elements, by the SVG recommendation."""
from ..vg import term as T

COUNT = {"M": 2, "L": 2, "T": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "A": 7, "Z": 0}


def path(commands):
    """Vertices of a path given as [(command, numbers)]."""
    out, at, start = [], (0, 0), (0, 0)
    for cmd, args in commands:
        kind, rel = cmd.upper(), cmd.islower()
        n = COUNT[kind]
        if kind == "Z":
            at = start
            out.append(at)
            continue
        for i in range(0, len(args), n):
            a = args[i:i + n]
            x, y = at
            if kind == "H":
                x = T.add(x, a[0]) if rel else a[0]
            elif kind == "V":
                y = T.add(y, a[0]) if rel else a[0]
            else:
                x, y = (T.add(x, a[-2]), T.add(y, a[-1])) if rel else a[-2:]
            at = (x, y)
            if kind == "M" and i == 0:
                start = at
            out.append(at)
    return out


def rect(x, y, w, h):
    r, b = T.add(x, w), T.add(y, h)
    return [(x, y), (r, y), (r, b), (x, b), (x, y)]


def apply(points, steps):
    """Points after transform functions, in the order given."""
    for f, a in steps:
        if f == "translate":
            a = a if len(a) == 2 else (a[0], 0)
            points = [(T.add(x, a[0]), T.add(y, a[1])) for x, y in points]
        elif f == "scale":
            a = a if len(a) == 2 else (a[0], a[0])
            points = [(T.mul(x, a[0]), T.mul(y, a[1])) for x, y in points]
        else:
            m = a
            points = [(T.add(T.add(T.mul(m[0], x), T.mul(m[2], y)), m[4]),
                       T.add(T.add(T.mul(m[1], x), T.mul(m[3], y)), m[5]))
                      for x, y in points]
    return points


def box(points):
    """Position and size of the box that bounds points."""
    lo, hi = list(points[0]), list(points[0])
    for p in points[1:]:
        lo = [T.app("min2", a, b) for a, b in zip(lo, p)]
        hi = [T.app("max2", a, b) for a, b in zip(hi, p)]
    return lo[0], lo[1], T.sub(hi[0], lo[0]), T.sub(hi[1], lo[1])


# -- writing ------------------------------------------------------------------------------
def write(words, commands, style="spaced"):
    """Text of path data, `words` turns a number into text."""
    out = ""
    for cmd, args in commands:
        n = max(COUNT[cmd.upper()], 1)
        nums = [words(a) for a in args]
        if style == "spaced":
            pairs = nums if n == 1 else [
                ",".join(nums[i:i + 2]) if (len(nums) - i) % 2 == 0 else nums[i]
                for i in range(0, len(nums))
                if (len(nums) - i) % 2 == 0 or i == 0]
            if n == 7:
                pairs = nums
            out += " ".join([cmd, *pairs]) + " "
        elif style == "lines":
            out += "\n\t" + cmd + "\n" + " ,\n ".join(nums) + "\n"
        elif style == "compact":
            out += cmd + joined(nums)
    return out[:-1] if style == "spaced" else out


def joined(nums):
    """Numbers with as few separators as possible."""
    out = ""
    for s in nums:
        last = out.split(" ")[-1].split("-")[-1]
        free = not out or s[0] == "-" or s[0] == "." and ("." in last or "e" in last)
        out += s if free else " " + s
    return out
