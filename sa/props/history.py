"""Histories: N01/N03, what a call returns does not depend on the calls made before it."""
from ..oblig import *
from .coeffs import CO
from .zdi import ZD, coeffs, pts
from .geom import GE, WP, IM, corners, image, _par, _rad
from .pfss import PF, _map, RAD, _pts
from .conv import CV

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


BOTH = ["N01", "N03"]

# ------------------------------------------------------------------ magnetogram object
_zm = "zdi_magnetogram:ZdiMagnetogram."
ZH = ZD + '''
def spoil(*xs):
    for x in xs:
        x *= 0
def fields(z, t, p):
    spoil(z.get_radial_poloidal_field(t, p), z.get_radial_toroidal_field(t, p), z.get_radial_field(t, p))
    spoil(z.get_polar_poloidal_field_new(t, p), z.get_polar_toroidal_field(t, p), z.get_polar_field(t, p))
    spoil(z.get_azimuthal_poloidal_field(t, p), z.get_azimuthal_toroidal_field_new(t, p), z.get_azimuthal_field(t, p))
    spoil(z.get_field_strength(t, p))
def tables(z):
    d = {}
    z.energy(dest=d)
    z.energy_matrix()
    z.get_all()
    z.degree()
def parts(z):
    for q in (z.as_poloidal(), z.as_toroidal(), z.as_dipole(), z.as_restricted((1, 2), (0, 1)), z.copy()):
        q.alpha *= 0
        q.beta *= 0
        q.gamma *= 0
        q.c_lm *= 0
'''


def _p2(h):
    n = h.size("Q0", 1, 3)
    return [h.arr("zt_b", [n], "f", lo=0.2, hi=2.9), h.arr("zp_b", [n], "f", lo=-3.0, hi=6.0)]


_zargs = lambda h: coeffs(h) + pts(h, 1) + _p2(h)
for _n, _m in (("r_pol", "get_radial_poloidal_field"), ("r", "get_radial_field"), ("t_pol", "get_polar_poloidal_field_new"), ("t_tor", "get_polar_toroidal_field"),
               ("t", "get_polar_field"), ("p_pol", "get_azimuthal_poloidal_field"), ("p_tor", "get_azimuthal_toroidal_field_new"), ("p", "get_azimuthal_field")):
    ob("N01_zdi_history_" + _n, ZH + '''
def impl(ls, ms, a, b, g, t, p, t2, p2):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    fields(z, t2, p2)
    parts(z)
    tables(z)
    fields(z, t, p)
    return z.%s(t, p)
def spec(ls, ms, a, b, g, t, p, t2, p2):
    return zm.ZdiMagnetogram(ls, ms, a, b, g).%s(t, p)
''' % (_m, _m), _zargs, _zm + _m, prop=BOTH)
ob("N01_zdi_history_energy", ZH + '''
def impl(ls, ms, a, b, g, t, p, t2, p2):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    fields(z, t2, p2)
    parts(z)
    tables(z)
    e = {}
    r = z.energy(dest=e)
    return r, [e[k] for k in ('magnetogram.total.energy.B2', 'magnetogram.poloidal.energy.fraction', 'magnetogram.tor.energy.l2.fraction')]
def spec(ls, ms, a, b, g, t, p, t2, p2):
    e = {}
    r = zm.ZdiMagnetogram(ls, ms, a, b, g).energy(dest=e)
    return r, [e[k] for k in ('magnetogram.total.energy.B2', 'magnetogram.poloidal.energy.fraction', 'magnetogram.tor.energy.l2.fraction')]
''', _zargs, _zm + "energy", prop=BOTH)
ob("N01_zdi_history_other", ZH + '''
def impl(ls, ms, a, b, g, t, p, t2, p2):
    y = zm.ZdiMagnetogram(ls, ms, b, g, a)
    fields(y, t, p)
    tables(y)
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    return z.get_radial_field(t, p), z.get_polar_field(t, p), z.get_azimuthal_field(t, p)
def spec(ls, ms, a, b, g, t, p, t2, p2):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    return z.get_radial_field(t, p), z.get_polar_field(t, p), z.get_azimuthal_field(t, p)
''', _zargs, [_zm + "get_radial_field", _zm + "get_polar_field", _zm + "get_azimuthal_field"], prop=BOTH)
ob("N01_zdi_history_parts", ZH + '''
def shown(z): return z.degrees_l, z.orders_m, z.alpha, z.beta, z.gamma
def impl(ls, ms, a, b, g, t, p, t2, p2):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    fields(z, t2, p2)
    tables(z)
    parts(z)
    return shown(z), shown(z.as_poloidal()), shown(z.as_toroidal()), shown(z.copy()), z.degree()
def spec(ls, ms, a, b, g, t, p, t2, p2):
    n = a * 0
    return (ls, ms, a, b, g), (ls, ms, a, b, n), (ls, ms, n, n, g), (ls, ms, a, b, g), max([0] + [l for l in ls])
''', _zargs, [_zm + "as_poloidal", _zm + "as_toroidal", _zm + "copy"], prop=BOTH)

# ------------------------------------------------------------------ geometry
_g = "geometry:ZdiGeometry."
GH = GE + '''
def use(g):
    for x in g.centers() + g.centers_cartesian() + g.corners_cartesian() + (g.areas(), g.unit_normals()):
        x *= 0
    v = g.projected_visible_area_fraction(np.array([0.3, 0.4, -1.0]))
    v *= 0
'''


def _c2(h):
    n, m = h.size("T2", 2, 4), h.size("F2", 2, 4)
    return [h.arr("tc_b", [n], "f", lo=0.2, hi=2.9), h.arr("pc_b", [m], "f", lo=0.1, hi=6.2)]


for _n, _e in (("centers", "g.centers()"), ("areas", "g.areas()"), ("normals", "g.unit_normals()"), ("corners", "g.corners()"),
               ("cartesian", "g.centers_cartesian()"), ("visible", "g.projected_visible_area_fraction(np.array([1.0, -2.0, 0.5]))")):
    ob("N01_grid_history_" + _n, GH + '''
def impl(tc, pc, tc2, pc2):
    h = grid(tc2, pc2)
    use(h)
    g = grid(tc, pc)
    use(g)
    use(h)
    return %s
def spec(tc, pc, tc2, pc2):
    g = grid(tc, pc)
    return %s
''' % (_e, _e), lambda h: corners(h) + _c2(h), _g + {"normals": "unit_normals", "cartesian": "centers_cartesian", "visible": "projected_visible_area_fraction"}.get(_n, _n), prop=BOTH)

# ------------------------------------------------------------------ Parker solution
ob("N01_parker_history", WP + '''
def impl(T, rho, R, M, r, r2):
    q = ps.ParkerSolution(T * 1.5, rho, R, M)
    q.speed(r); q.density(r)
    p = ps.ParkerSolution(T, rho, R, M)
    a, b = p.speed(r2), p.density(r2)
    a *= 0
    b *= 0
    a, b, c = p.speed(r), p.density(r), p.total_mass_flux
    return p.speed(r), p.density(r), p.total_mass_flux, p.radius_sonic, p.speed_sonic
def spec(T, rho, R, M, r, r2):
    p = ps.ParkerSolution(T, rho, R, M)
    return p.speed(r), ps.ParkerSolution(T, rho, R, M).density(r), p.total_mass_flux, p.radius_sonic, p.speed_sonic
''', lambda h: _par(h) + _rad(h) + [h.arr("prad_b", [h.size("P2")], "f", lo=3e8, hi=3e10)], ["parker_solution:ParkerSolution.speed", "parker_solution:ParkerSolution.density"], prop=BOTH)

# ------------------------------------------------------------------ PFSS
ob("N01_pfss_history", PF + '''
def impl(ia, ib, r, t, p, r0, rss):
    b = build(ib, 1)
    for f in pm.evaluate_spherical(b, r, t, p, r0, rss + 1):
        f *= 0
    a = build(ia, 1)
    for f in pm.evaluate_spherical(a, r, t, p, r0, rss):
        f *= 0
    for f in pm.evaluate_spherical(a, r + 1, p, t, r0, rss):
        f *= 0
    return shown(pm.evaluate_spherical(a, r, t, p, r0, rss))
def spec(ia, ib, r, t, p, r0, rss): return shown(pm.evaluate_spherical(build(ia, 1), r, t, p, r0, rss))
''', lambda h: [_map(h), h.cmap("G1", const(1))] + _pts(1)(h) + RAD(h), "pfss_magnetogram:evaluate_spherical", prop=BOTH)

# ------------------------------------------------------------------ coefficient sets
ob("N01_coefficients_history", CO + '''
def use(a, b):
    for c in (a.copy(), a + b, a - b, a * 3.0, 2.0 * a, a / 2.0, a ** 2, a.truncated(2), sc.zeros_like(a), sc.empty_like(a), a.scale(lambda l, m: 2.0 + l), sc.hstack((a, b))):
        c.set(1, 0, 5 * c.default_coefficients + 3)
    for c in a.hsplit():
        c.set(2, 1, 7.0)
    sc.allclose(a, b)
    sc.isclose(a, b)
    a.has(1, 1)
    d = a.default_coefficients
    d += 1
    l, m, v = a.as_arrays()
    v *= 0
    l, m, v = a.as_arrays(include_unset=False)
    v *= 0
def impl(ia, ib, w):
    a, b = build(ia, w), build(ib, w)
    use(a, b)
    use(b, a)
    return obs(a), obs(b), a.default_coefficients, a.degree_max, a.order_min, a.size
def spec(ia, ib, w):
    a = build(ia, w)
    return {k: v for k, v in ia.items()}, {k: v for k, v in ib.items()}, np.zeros(w) * 0j, a.degree_max, a.order_min, a.size
''', lambda h: [h.cmap("A1", const(1)), h.cmap("B1", const(1)), I_(1)], "coefficients:Coefficients", prop=BOTH)

# ------------------------------------------------------------------ conversions and images
ob("N01_conversion_history", CV + '''
def impl(ia, ib, w):
    a, b = build(ia, w), build(ib, w)
    for f in (cv.convert_zdi_to_pfss, cv.convert_pfss_to_zdi, cv.map_to_positive_orders):
        f(b)
        c = f(a)
        c.set(1, 0, c.default_coefficients + 9)
    return obs(cv.convert_zdi_to_pfss(a)), obs(cv.convert_pfss_to_zdi(a)), obs(a)
def spec(ia, ib, w):
    a = build(ia, w)
    return obs(cv.convert_zdi_to_pfss(a)), obs(cv.convert_pfss_to_zdi(a)), {k: v for k, v in ia.items()}
''', lambda h: [h.cmap("A1", const(1)), h.cmap("B1", const(1)), I_(1)], ["converter:convert_zdi_to_pfss", "converter:convert_pfss_to_zdi"], prop=BOTH)
for _n, _c in (("synthesis", "im.to_image(build(ia, 1), grid(tc, pc))"), ("analysis", "im.from_image(img, grid(tc, pc), top)[0].get(1, 1)")):
    ob("I02_history_" + _n, IM + '''
def impl(ia, img, tc, pc, top):
    im.to_image(build(ia, 1), grid(tc, pc))
    im.from_image(img, grid(tc, pc), top)
    return %s
def spec(ia, img, tc, pc, top):
    return %s
''' % (_c, _c), lambda h: [h.cmap("F1", const(1))] + image(h) + corners(h) + [h.int("top", 0, 3)], ["image_converter:to_image", "image_converter:from_image"], prop=["I02"] + BOTH)
