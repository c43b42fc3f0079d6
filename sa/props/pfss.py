"""Potential field source surface model (F01-F04) and coordinate transforms (T01, T02)."""
from ..oblig import *
from .coeffs import CO

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


PF = CO + '''
import scipy.special
from starwinds_magnetogram import pfss_magnetogram as pm
from starwinds_magnetogram import coordinate_transforms as ct

def R(l, r, r0, rss):
    return r0 * (r0 / r) ** (l + 1) * (1 - (r / rss) ** (2 * l + 1)) / (l + 1 + l * (r0 / rss) ** (2 * l + 1))
def dR(l, r, r0, rss):
    return -(r0 / r) ** (l + 2) * (l + 1 + l * (r / rss) ** (2 * l + 1)) / (l + 1 + l * (r0 / rss) ** (2 * l + 1))
def P(l, m, t):
    return scipy.special.lpmv(m, l, math.cos(t))
def dP(l, m, t):
    if l == 0: return 0.0
    return (l * math.cos(t) * P(l, m, t) - (l + m) * P(l - 1, m, t)) / math.sin(t)
def schmidt(l, m):
    return (-1) ** abs(m) * math.sqrt((1 if m == 0 else 2) * scipy.special.factorial(l - m) / scipy.special.factorial(l + m))
def point(ia, r, t, p, r0, rss):
    """field at one point: minus the gradient of the potential"""
    if r < r0: return [0.0, 0.0, 0.0]
    q = min(r, rss)
    fr, ft, fp = 0.0, 0.0, 0.0
    for (l, m), v in ia.items():
        g, h = v[0].real, v[0].imag
        F = g * math.cos(m * p) + h * math.sin(m * p)
        dF = m * (h * math.cos(m * p) - g * math.sin(m * p))
        fr -= dR(l, q, r0, rss) * schmidt(l, m) * P(l, m, t) * F
        ft -= R(l, q, r0, rss) * schmidt(l, m) * dP(l, m, t) * F / q
        fp -= R(l, q, r0, rss) * schmidt(l, m) * P(l, m, t) * dF / (q * math.sin(t))
    s = (q / r) ** 2
    return [fr * s, ft * s, fp * s]
def field(ia, r, t, p, r0, rss):
    c = [[point(ia, r[i], t[i], p[i], r0, rss)[k] for i in range(len(t))] for k in range(3)]
    return np.array(c[0]), np.array(c[1]), np.array(c[2])
def field2(ia, r, t, p, r0, rss):
    c = [[[point(ia, r[i, j], t[i, j], p[i, j], r0, rss)[k] for j in range(t.shape[1])] for i in range(t.shape[0])] for k in range(3)]
    return np.array(c[0]), np.array(c[1]), np.array(c[2])
def shown(f):
    return f[0], f[1], f[2]
'''

ob("F01_radial", PF + '''
def impl(l, r, r0, rss): return pm.r_l(l, r, r0, rss)
def spec(l, r, r0, rss): return R(l, r, r0, rss), dR(l, r, r0, rss)
''', lambda h: [h.int("l", 0, 9), h.real("r", 0.3, 4.0), h.real("r0", 0.3, 2.0), h.real("rss", 0.3, 4.0)], "pfss_magnetogram:r_l", prop="F01")
ob("F01_radial_array", PF + '''
def impl(l, r, r0, rss): return pm.r_l(l, r, r0, rss)
def spec(l, r, r0, rss): return np.array([R(l, x, r0, rss) for x in r]), np.array([dR(l, x, r0, rss) for x in r])
''', lambda h: [h.int("l", 0, 9), h.arr("rv", [h.size("P")], "f", lo=0.3, hi=4.0), h.real("r0", 0.3, 2.0), h.real("rss", 0.3, 4.0)], "pfss_magnetogram:r_l", prop="F01")
ob("F01_radial_integer", PF + '''
def impl(l, r, r0, rss): return pm.r_l(l, r, r0, rss)
def spec(l, r, r0, rss): return np.array([R(l, float(x), float(r0), float(rss)) for x in r]), np.array([dR(l, float(x), float(r0), float(rss)) for x in r])
''', lambda h: [h.int("l", 0, 9), h.arr("riv", [h.size("P")], "i", dist=irange(1, 4)), h.int("ir0", 1, 2), h.int("irss", 3, 5)], "pfss_magnetogram:r_l", prop="N02")
ob("F01_surface", PF + '''
def impl(l, r0, rss): return pm.r_l(l, rss, r0, rss)[0], pm.r_l(l, r0, r0, rss)[1]
def spec(l, r0, rss): return 0.0, -1.0
''', lambda h: [h.int("l", 0, 9), h.real("r0", 0.3, 2.0), h.real("rss", 2.0, 4.0)], "pfss_magnetogram:r_l", prop="F01")
ob("F01_azimuthal", PF + '''
def impl(m, g, h, p): return pm.phi_lm(m, g, h, p)
def spec(m, g, h, p):
    return np.array([g * math.cos(m * x) + h * math.sin(m * x) for x in p]), np.array([m * (h * math.cos(m * x) - g * math.sin(m * x)) for x in p])
''', lambda h: [h.int("m", 0, 9), h.real("g"), h.real("h"), h.arr("pv", [h.size("P")], "f")], "pfss_magnetogram:phi_lm", prop="F01")
_lm = lambda h: [h.int("pl", 0, dist=choices(2, 3)), h.int("pm", 0, dist=choices(0, 1, 2))]
ob("F01_polar_value", PF + '''
def impl(l, m, t): return pm.theta_lm(l, m, t)[0]
def spec(l, m, t): return np.array([schmidt(l, m) * P(l, m, x) for x in t])
''', lambda h: _lm(h) + [h.arr("tv", [h.size("P")], "f", lo=0.2, hi=2.9)], "pfss_magnetogram:theta_lm", prop="F01")
ob("F01_polar_all", PF + '''
def impl(l, m, t): return pm.calculate_all_theta(l, m, t)
def spec(l, m, t):
    return (np.array([[schmidt(l[k], m[k]) * P(l[k], m[k], x) for k in range(len(l))] for x in t]),
            np.array([[schmidt(l[k], m[k]) * dP(l[k], m[k], x) for k in range(len(l))] for x in t]))
''', lambda h: (lambda n: [h.arr("zl", [n], "i", dist=irange(0, 3)), h.arr("zmp", [n], "i", dist=lambda r, idx, I: r.randint(0, I.atom("zl", idx))),
                           h.arr("tv", [h.size("P")], "f", lo=0.2, hi=2.9)])(h.size("N", 1, 3)), "pfss_magnetogram:calculate_all_theta", prop="F01")

# ------------------------------------------------------------------ F02


def _pts(rank, k="f", tag=""):
    def f(h):
        d = [h.size("P%d" % i, 1, 3) for i in range(rank)]
        if k == "i":
            return [h.arr("fri%d" % rank, d, "i", dist=choices(1, 2, 3)), h.arr("fti%d" % rank, d, "i", dist=choices(1, 2)), h.arr("fpi%d" % rank, d, "i", dist=irange(-3, 6))]
        return [h.arr("fr%d" % rank, d, "f", lo=0.2, hi=4.0), h.arr("ft%d" % rank, d, "f", lo=0.2, hi=2.9), h.arr("fp%d" % rank, d, "f", lo=-3.0, hi=6.0)]
    return f


def _map(h):
    return h.cmap("F1", const(1))


NEG = '''
    if len(ia) == 0: raise AssertionError
    for (l, m) in ia:
        if m < 0: raise AssertionError
'''
RAD = lambda h: [h.real("r0", 0.3, 2.0), h.real("rss", 0.3, 4.0)]
_E = "pfss_magnetogram:evaluate_spherical"
for _rank in (1, 2):
    ob("F02_field_%dd" % _rank, PF + '''
def impl(ia, r, t, p, r0, rss):
    return shown(pm.evaluate_spherical(build(ia, 1), r, t, p, r0, rss))
def spec(ia, r, t, p, r0, rss):
    if r0 >= rss: raise AssertionError
''' + NEG + '''
    return field%s(ia, r, t, p, r0, rss)
''' % ("" if _rank == 1 else "2"), (lambda rank: lambda h: [_map(h)] + _pts(rank)(h) + RAD(h))(_rank), _E, prop="F02", n=30)
ob("F02_single_radius", PF + '''
def impl(ia, r, t, p, r0, rss):
    return shown(pm.evaluate_spherical(build(ia, 1), r, t, p, radius_star=r0, radius_source_surface=rss))
def spec(ia, r, t, p, r0, rss):
    if r0 >= rss: raise AssertionError
''' + NEG + '''
    return field(ia, [r for x in t], t, p, r0, rss)
''', lambda h: [_map(h), h.real("r", 0.3, 4.0)] + _pts(1)(h)[1:] + RAD(h), _E, prop="F02", n=24)
ob("F02_one_point", PF + '''
def impl(ia, r, t, p, r0, rss):
    return shown(pm.evaluate_spherical(build(ia, 1), r, t, p, r0, rss))
def spec(ia, r, t, p, r0, rss):
    if r0 >= rss: raise AssertionError
''' + NEG + '''
    return field(ia, [r], [t], [p], r0, rss)
''', lambda h: [_map(h), h.real("r", 0.3, 4.0), h.real("t", 0.2, 2.9), h.real("p", -3.0, 6.0)] + RAD(h), _E, prop="F02", n=24)
ob("F02_defaults", PF + '''
def impl(ia, r, t, p, r0, rss):
    a = build(ia, 1)
    return shown(pm.evaluate_spherical(a, r, t, p)), shown(pm.evaluate_spherical(a, r, t, p, radius_source_surface=2.0)), shown(pm.evaluate_spherical(a, r, t, p, 0.5)), pm.default_radius_star, pm.default_radius_source_surface
def spec(ia, r, t, p, r0, rss):
''' + NEG + '''
    return field(ia, r, t, p, 1, 2.5), field(ia, r, t, p, 1, 2.0), field(ia, r, t, p, 0.5, 2.5), 1, 2.5
''', lambda h: [_map(h)] + _pts(1)(h) + RAD(h), _E, prop="F03", n=16)
ob("F02_integer", PF + '''
def impl(ia, r, t, p):
    return shown(pm.evaluate_spherical(build(ia, 1), r, t, p, 1, 3))
def spec(ia, r, t, p):
''' + NEG + '''
    return field(ia, r, t, p, 1.0, 3.0)
''', lambda h: [_map(h)] + _pts(1, "i")(h), _E, prop="N02", n=24)
ob("F02_mixed", PF + '''
def impl(ia, r, t, p):
    return shown(pm.evaluate_spherical(build(ia, 1), r, t, p, 1, 3))
def spec(ia, r, t, p):
''' + NEG + '''
    return field(ia, r, t, p, 1.0, 3.0)
''', lambda h: [_map(h)] + [_pts(1, "i")(h)[0]] + _pts(1)(h)[1:], _E, prop="N02", n=24)
ob("F02_inputs", PF + '''
def impl(ia, r, t, p, r0, rss):
    a = build(ia, 1)
    f = pm.evaluate_spherical(a, r, t, p, r0, rss)
    return obs(a), r, t, p, [vc_shares(f, x) for x in (r, t, p, a)]
def spec(ia, r, t, p, r0, rss):
    return {k: v for k, v in ia.items()}, r, t, p, [False] * 4
''', lambda h: [_map(h)] + _pts(1)(h) + RAD(h), _E, prop="N01")

# ------------------------------------------------------------------ F03
for _n, _call in (("spherical", "pm.evaluate_spherical(build(ia, 1), r, t, p, r0, rss)"),
                  ("cartesian", "pm.evaluate_cartesian(build(ia, 1), r, t, p, r0, rss)")):
    ob("F03_order_" + _n, PF + '''
def impl(ia, r, t, p, r0, rss):
    if r0 < rss: return
    %s
def spec(ia, r, t, p, r0, rss):
    if r0 >= rss: raise AssertionError
''' % _call, lambda h: [_map(h)] + _pts(1)(h) + RAD(h), "pfss_magnetogram:evaluate_" + _n, prop="F03")
    ob("F03_default_" + _n, PF + '''
def impl(ia, r, t, p, r0, rss):
    if r0 >= 2.5:
        %s
    if rss <= 1:
        %s
def spec(ia, r, t, p, r0, rss):
    if r0 >= 2.5 or rss <= 1: raise AssertionError
''' % (_call.replace(", rss)", ")"), _call.replace("r0, rss)", "None, rss)")), lambda h: [_map(h)] + _pts(1)(h) + [h.real("r0x", 1.0, 4.0), h.real("rssx", 0.5, 4.0)],
       "pfss_magnetogram:evaluate_" + _n, prop="F03")
    ob("F03_negative_" + _n, PF + '''
def impl(ia, r, t, p):
    n = 0
    for (l, m) in ia:
        if m < 0: n += 1
    if n > 0:
        %s
def spec(ia, r, t, p):
    for (l, m) in ia:
        if m < 0: raise AssertionError
''' % _call.replace(", r0, rss)", ")"), lambda h: [_map(h)] + _pts(1)(h), "pfss_magnetogram:evaluate_" + _n, prop="F03")

# ------------------------------------------------------------------ F04
CA = PF + '''
def sph(x, y, z):
    r = math.sqrt(x * x + y * y + z * z)
    return r, math.acos(z / r), math.atan2(y, x)
def cart(f, t, p):
    st, ct_, sp, cp = math.sin(t), math.cos(t), math.sin(p), math.cos(p)
    return [f[0] * st * cp + f[1] * ct_ * cp - f[2] * sp, f[0] * st * sp + f[1] * ct_ * sp + f[2] * cp, f[0] * ct_ - f[1] * st]
'''
XYZ = lambda rank: lambda h: (lambda d: [h.arr("x%s%d" % (q, rank), d, "f", lo=0.1, hi=3.0) for q in "xyz"])([h.size("P%d" % i, 1, 3) for i in range(rank)])
for _rank in (1, 2):
    ob("F04_cartesian_%dd" % _rank, CA + '''
def impl(ia, x, y, z, r0, rss):
    return [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z, r0, rss)]
def spec(ia, x, y, z, r0, rss):
    r, t, p = ct.spherical_coordinates_from_rectangular(x, y, z)
    a, b, c = pm.evaluate_spherical(build(ia, 1), r, t, p, r0, rss)
''' + ('''
    v = [cart((a[i], b[i], c[i]), t[i], p[i]) for i in range(len(x))]
    return [a, b, c] + [np.array([w[k] for w in v]) for k in range(3)]
''' if _rank == 1 else '''
    f = lambda k: np.array([[cart((a[i, j], b[i, j], c[i, j]), t[i, j], p[i, j])[k] for j in range(x.shape[1])] for i in range(x.shape[0])])
    return [a, b, c, f(0), f(1), f(2)]
'''), (lambda rank: lambda h: [_map(h)] + XYZ(rank)(h) + RAD(h))(_rank), "pfss_magnetogram:evaluate_cartesian", prop="F04", n=16)
ob("F04_defaults", CA + '''
def impl(ia, x, y, z):
    return [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z)], [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z, radius_star=0.5)], [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z, radius_source_surface=4.5)]
def spec(ia, x, y, z):
    return [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z, 1, 2.5)], [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z, 0.5, 2.5)], [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z, 1, 4.5)]
''', lambda h: [_map(h)] + XYZ(1)(h), "pfss_magnetogram:evaluate_cartesian", prop="F03", n=8)
ob("F04_point", CA + '''
def impl(ia, x, y, z, r0, rss):
    return [c for c in pm.evaluate_cartesian(build(ia, 1), x, y, z, r0, rss)]
def spec(ia, x, y, z, r0, rss):
    r, t, p = sph(x, y, z)
    if r0 >= rss: raise AssertionError
''' + NEG + '''
    f = point(ia, r, t, p, r0, rss)
    return [np.array([q]) for q in f + cart(f, t, p)]
''', lambda h: [_map(h)] + [h.real("s" + q, 0.2, 2.0) for q in "xyz"] + RAD(h), "pfss_magnetogram:evaluate_cartesian", prop="F04", n=16)

# ------------------------------------------------------------------ T01, T02
CT = PF + '''
def s2r(t, p):
    return [[math.sin(t) * math.cos(p), math.cos(t) * math.cos(p), -math.sin(p)],
            [math.sin(t) * math.sin(p), math.cos(t) * math.sin(p), math.cos(p)],
            [math.cos(t), -math.sin(t), 0.0]]
'''
_tp = lambda h: (lambda n: [h.arr("tv", [n], "f"), h.arr("pv", [n], "f")])(h.size("P"))
ob("T01_forward", CT + '''
def impl(t, p): return ct.spherical_to_rectangular_transformation_matrix(t, p)
def spec(t, p): return np.array([s2r(t[i], p[i]) for i in range(len(t))])
''', _tp, "coordinate_transforms:spherical_to_rectangular_transformation_matrix", prop="T01")
ob("T01_backward", CT + '''
def impl(t, p): return ct.rectangular_to_spherical_transformation_matrix(t, p)
def spec(t, p): return np.array([[[s2r(t[i], p[i])[b][a] for b in range(3)] for a in range(3)] for i in range(len(t))])
''', _tp, "coordinate_transforms:rectangular_to_spherical_transformation_matrix", prop="T01")
ob("T01_scalar", CT + '''
def impl(t, p): return ct.spherical_to_rectangular_transformation_matrix(t, p), ct.rectangular_to_spherical_transformation_matrix(t, p)
def spec(t, p): return np.array([s2r(t, p)]), np.array([[[s2r(t, p)[b][a] for b in range(3)] for a in range(3)]])
''', lambda h: [h.real("t"), h.real("p")], ["coordinate_transforms:spherical_to_rectangular_transformation_matrix", "coordinate_transforms:rectangular_to_spherical_transformation_matrix"], prop="T01")
ob("T01_inverse", CT + '''
def impl(t, p):
    a, b = ct.spherical_to_rectangular_transformation_matrix(t, p), ct.rectangular_to_spherical_transformation_matrix(t, p)
    return a @ b, b @ a
def spec(t, p):
    e = np.array([[[1.0 if a == b else 0.0 for b in range(3)] for a in range(3)] for x in t])
    return e, e
''', _tp, ["coordinate_transforms:spherical_to_rectangular_transformation_matrix", "coordinate_transforms:rectangular_to_spherical_transformation_matrix"], prop="T01")
ob("T01_integer", CT + '''
def impl(t, p): return ct.spherical_to_rectangular_transformation_matrix(t, p), ct.rectangular_to_spherical_transformation_matrix(t, p)
def spec(t, p): return (np.array([s2r(t[i], p[i]) for i in range(len(t))]), np.array([[[s2r(t[i], p[i])[b][a] for b in range(3)] for a in range(3)] for i in range(len(t))]))
''', lambda h: (lambda n: [h.arr("itv", [n], "i"), h.arr("ipv", [n], "i")])(h.size("P")),
   ["coordinate_transforms:spherical_to_rectangular_transformation_matrix", "coordinate_transforms:rectangular_to_spherical_transformation_matrix"], prop="N02")
for _k in "fi":
    ob("T02_spherical_" + _k, CT + '''
def impl(x, y, z): return [c for c in ct.spherical_coordinates_from_rectangular(x, y, z)]
def spec(x, y, z):
    r = [math.sqrt(x[i] ** 2 + y[i] ** 2 + z[i] ** 2) for i in range(len(x))]
    t = [math.acos(z[i] / r[i]) if r[i] != 0 else None for i in range(len(x))]
    return [np.array(r), np.array([math.acos(z[i] / r[i] if r[i] != 0 else 0.0) for i in range(len(x))]), np.array([math.atan2(y[i], x[i]) for i in range(len(x))])]
''', (lambda k: lambda h: (lambda n: [h.arr("%sx%s" % (k, q), [n], k, **(dict(dist=irange(-2, 2)) if k == "i" else {})) for q in "xyz"])(h.size("P")))(_k),
       "coordinate_transforms:spherical_coordinates_from_rectangular", prop="T02" if _k == "f" else "N02")
    ob("T02_rectangular_" + _k, CT + '''
def impl(r, t, p): return [c for c in ct.rectangular_coordinates_from_spherical(r, t, p)]
def spec(r, t, p):
    n = range(len(r))
    return [np.array([r[i] * math.sin(t[i]) * math.cos(p[i]) for i in n]), np.array([r[i] * math.sin(t[i]) * math.sin(p[i]) for i in n]), np.array([r[i] * math.cos(t[i]) for i in n])]
''', (lambda k: lambda h: (lambda n: [h.arr("%ss%s" % (k, q), [n], k, **(dict(dist=irange(-2, 2)) if k == "i" else {})) for q in "rtp"])(h.size("P")))(_k),
       "coordinate_transforms:rectangular_coordinates_from_spherical", prop="T02" if _k == "f" else "N02")
ob("T02_2d", CT + '''
def impl(x, y, z): return [c for c in ct.spherical_coordinates_from_rectangular(x, y, z)] + [c for c in ct.rectangular_coordinates_from_spherical(x, y, z)]
def spec(x, y, z):
    f = lambda g: np.array([[g(x[i, j], y[i, j], z[i, j]) for j in range(x.shape[1])] for i in range(x.shape[0])])
    return [f(lambda a, b, c: math.sqrt(a * a + b * b + c * c)), f(lambda a, b, c: math.acos(c / math.sqrt(a * a + b * b + c * c))), f(lambda a, b, c: math.atan2(b, a)),
            f(lambda a, b, c: a * math.sin(b) * math.cos(c)), f(lambda a, b, c: a * math.sin(b) * math.sin(c)), f(lambda a, b, c: a * math.cos(b))]
''', XYZ(2), ["coordinate_transforms:spherical_coordinates_from_rectangular", "coordinate_transforms:rectangular_coordinates_from_spherical"], prop="T02")
ob("T02_inverse", CT + '''
def impl(x, y, z, r, t, p):
    return [c for c in ct.rectangular_coordinates_from_spherical(*ct.spherical_coordinates_from_rectangular(x, y, z))], [c for c in ct.spherical_coordinates_from_rectangular(*ct.rectangular_coordinates_from_spherical(r, t, p))]
def spec(x, y, z, r, t, p):
    return [x, y, z], [r, t, p]
''', lambda h: (lambda n: [h.arr("q" + q, [n], "f", lo=0.1, hi=2.0) for q in "xyz"] + [h.arr("qr", [n], "f", lo=0.1, hi=2.0), h.arr("qt", [n], "f", lo=0.1, hi=3.0), h.arr("qp", [n], "f", lo=-3.1, hi=3.1)])(h.size("P")),
   ["coordinate_transforms:rectangular_coordinates_from_spherical", "coordinate_transforms:spherical_coordinates_from_rectangular"], prop="T02")
ob("T02_inputs", CT + '''
def impl(x, y, z):
    a = ct.spherical_coordinates_from_rectangular(x, y, z)
    b = ct.rectangular_coordinates_from_spherical(x, y, z)
    return [vc_shares(q, w) for q in (a, b) for w in (x, y, z)], x, y, z
def spec(x, y, z): return [False] * 6, x, y, z
''', XYZ(1), ["coordinate_transforms:rectangular_coordinates_from_spherical", "coordinate_transforms:spherical_coordinates_from_rectangular"], prop="N01")
