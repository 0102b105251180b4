"""Specification of the external camera models, written from their documentation."""
from ..vg import term as T
from . import camera as S

add, mul, sub, div = T.add, T.mul, T.sub, T.div


def total(*xs):
    s = 0
    for x in xs:
        s = add(s, x)
    return s


def powers(x, y):
    r2 = add(mul(x, x), mul(y, y))
    return r2, mul(r2, r2), mul(mul(r2, r2), r2), mul(mul(r2, r2), mul(r2, r2))


def agisoft(d, x, y):
    """Image point of normalized camera coordinates (Metashape manual, appendix C)."""
    r = powers(x, y)
    dr = add(1, S.dot([d["k1"], d["k2"], d["k3"], d["k4"]], r))
    xy = mul(2, mul(x, y))
    xx = add(r[0], mul(2, mul(x, x)))
    yy = add(r[0], mul(2, mul(y, y)))
    xd = total(mul(x, dr), mul(d["p1"], xx), mul(d["p2"], xy))
    yd = total(mul(y, dr), mul(d["p2"], yy), mul(d["p1"], xy))
    w, h = d["imgsz"]
    return [total(div(w, 2), d["cx"], mul(xd, d["f"]), mul(xd, d["b1"]),
                  mul(yd, d["b2"])),
            total(div(h, 2), d["cy"], mul(yd, d["f"]))]


def matlab(d, x, y):
    """Camera Calibration Toolbox; the center of the first pixel is (0, 0) there."""
    k1, k2, p1, p2, k3 = d["kc"]
    r = powers(x, y)
    dr = add(1, S.dot([k1, k2, k3], r[:3]))
    xy = mul(2, mul(x, y))
    xd = total(mul(dr, x), mul(p1, xy), mul(p2, add(r[0], mul(2, mul(x, x)))))
    yd = total(mul(dr, y), mul(p2, xy), mul(p1, add(r[0], mul(2, mul(y, y)))))
    return [total(mul(d["fc"][0], add(xd, mul(d["alpha_c"], yd))), d["cc"][0], 0.5),
            total(mul(d["fc"][1], yd), d["cc"][1], 0.5)]


def opencv(d, x, y):
    """OpenCV calib3d, without tilted sensor."""
    r = powers(x, y)
    dr = div(add(1, S.dot([d["k1"], d["k2"], d["k3"]], r[:3])),
             add(1, S.dot([d["k4"], d["k5"], d["k6"]], r[:3])))
    xy = mul(2, mul(x, y))
    xd = total(mul(x, dr), mul(d["p1"], xy), mul(d["p2"], add(r[0], mul(2, mul(x, x)))),
               mul(d["s1"], r[0]), mul(d["s2"], r[1]))
    yd = total(mul(y, dr), mul(d["p1"], add(r[0], mul(2, mul(y, y)))), mul(d["p2"], xy),
               mul(d["s3"], r[0]), mul(d["s4"], r[1]))
    return [add(mul(d["fx"], xd), d["cx"]), add(mul(d["fy"], yd), d["cy"])]


def photomodeler(d, u, v):
    """Normalized camera coordinates of an image point (y up in photo space)."""
    x = sub(div(mul(u, d["fw"]), d["imgsz"][0]), d["xp"])
    y = mul(-1, sub(div(mul(v, d["fh"]), d["imgsz"][1]), d["yp"]))
    r = powers(x, y)
    dr = add(1, S.dot([d["k1"], d["k2"], d["k3"]], r[:3]))
    xy = mul(2, mul(x, y))
    xc = total(mul(x, dr), mul(d["p1"], add(r[0], mul(2, mul(x, x)))), mul(d["p2"], xy))
    yc = total(mul(y, dr), mul(d["p2"], add(r[0], mul(2, mul(y, y)))), mul(d["p1"], xy))
    return [div(xc, d["focal"]), div(mul(-1, yc), d["focal"])]


def camera(d, x, y):
    """Image point of normalized camera coordinates (glimpse camera)."""
    xd, yd = S.distort(x, y, list(d["k"]), list(d["p"]))
    return [total(div(d["imgsz"][0], 2), d["c"][0], mul(d["f"][0], xd)),
            total(div(d["imgsz"][1], 2), d["c"][1], mul(d["f"][1], yd))]
