"""Rejected arguments: N04."""
from ..oblig import *
from .coeffs import CO
from .geom import GE
from .pfss import PF, _map
from .zdi import ZD, coeffs

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, prop="N04", **k))


def A(h, tag, n, lo, hi):
    return h.arr("nr%s%d" % (tag, n), [const(n)], "f", lo=lo, hi=hi)


for _r, _t, _p in ((3, 3, 2), (3, 2, 3), (2, 3, 3), (3, 3, 1), (3, 1, 3), (2, 1, 1)):
    ob("N04_shapes_spherical_%d%d%d" % (_r, _t, _p), PF + '''
def impl(ia, r, t, p): return pm.evaluate_spherical(build(ia, 1), r, t, p)
def spec(ia, r, t, p): raise AssertionError
''', (lambda r, t, p: lambda h: [_map(h), A(h, "r", r, 1.0, 2.0), A(h, "t", t, 0.2, 2.9), A(h, "p", p, -3.0, 6.0)])(_r, _t, _p), "pfss_magnetogram:evaluate_spherical", n=12)
for _x, _y, _z in ((3, 3, 2), (3, 2, 3), (2, 3, 3), (3, 3, 1), (3, 1, 3), (1, 3, 3)):
    ob("N04_shapes_cartesian_%d%d%d" % (_x, _y, _z), PF + '''
def impl(ia, x, y, z): return pm.evaluate_cartesian(build(ia, 1), x, y, z)
def spec(ia, x, y, z): raise AssertionError
''', (lambda x, y, z: lambda h: [_map(h), A(h, "x", x, 1.0, 2.0), A(h, "y", y, 1.0, 2.0), A(h, "z", z, -1.0, 2.0)])(_x, _y, _z), "pfss_magnetogram:evaluate_cartesian", n=12)
for _c in ("x", "y", "z"):
    ob("N04_nan_" + _c, '''
from starwinds_magnetogram import coordinate_transforms as ct
def impl(x, y, z):
    q = dict(x=x, y=y, z=z)
    q["%s"] = np.array([1.0, np.nan])
    return ct.spherical_coordinates_from_rectangular(q["x"], q["y"], q["z"])
def spec(x, y, z): raise AssertionError
''' % _c, lambda h: [A(h, "x", 2, 1.0, 2.0), A(h, "y", 2, 1.0, 2.0), A(h, "z", 2, -1.0, 2.0)], "coordinate_transforms:spherical_coordinates_from_rectangular", n=12)
ob("N04_fold_width", CO + '''
from starwinds_magnetogram import converter as cv
def impl(l, m, x):
    c = sc.Coefficients(np.array([0j, 0j]))
    c.append(l, m, np.array([x, 1j]))
    return cv.map_to_positive_orders(c)
def spec(l, m, x): raise AssertionError
''', lambda h: [h.int("l", 2, 4), h.int("m", -2, 2), h.cplx("x")], "converter:map_to_positive_orders")
for _f in ("append", "set"):
    for _n, _l, _m, _v in (("order", "l", "l + k", "[x]"), ("negative", "l", "-l - k", "[x]"), ("width", "l", "l", "[x, x]"), ("empty", "l", "l", "[]")):
        ob("N04_%s_%s" % (_f, _n), CO + '''
def impl(l, k, x):
    c = sc.Coefficients()
    c.%s(%s, %s, np.array(%s))
    return obs(c)
def spec(l, k, x): raise AssertionError
''' % (_f, _l, _m, _v), lambda h: [h.int("l", 0, 5), h.int("k", 1, 5), h.cplx("x")], "coefficients:Coefficients." + _f)
