"""Geometry, longitudinal field, Parker solution, images and sphere sampling: G01-G04, B01, W01, I01, I02, N05."""
from ..oblig import *
from .coeffs import CO
from .zdi import ZD, coeffs, pts

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


GE = CO + '''
from starwinds_magnetogram import geometry as ge
def grid(tc, pc):
    return ge.ZdiGeometry(tc, pc)
def each(tc, pc, f):
    """facet values: azimuth along the first axis, polar angle along the second"""
    return np.array([[f(tc[j], tc[j + 1], pc[i], pc[i + 1]) for j in range(len(tc) - 1)] for i in range(len(pc) - 1)])
def unit(t, p):
    return [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
def space(top, n):
    return [top * i / (n - 1) for i in range(n)]
'''


def corners(h):
    n, m = h.size("T", 2, 4), h.size("F", 2, 4)
    return [h.arr("tc", [n], "f", lo=0.2, hi=2.9), h.arr("pc", [m], "f", lo=0.1, hi=6.2)]


_c = "geometry:ZdiGeometry."
ob("G01_areas", GE + '''
def impl(tc, pc): return grid(tc, pc).areas()
def spec(tc, pc): return each(tc, pc, lambda a, b, c, d: (math.cos(a) - math.cos(b)) * (d - c))
''', corners, _c + "areas", prop="G01")
ob("G01_centers", GE + '''
def impl(tc, pc): return [x for x in grid(tc, pc).centers()]
def spec(tc, pc): return [each(tc, pc, lambda a, b, c, d: (a + b) / 2), each(tc, pc, lambda a, b, c, d: (c + d) / 2)]
''', corners, _c + "centers", prop="G01")
ob("G01_normals", GE + '''
def impl(tc, pc): return grid(tc, pc).unit_normals(), [x for x in grid(tc, pc).centers_cartesian()]
def spec(tc, pc):
    u = lambda k: each(tc, pc, lambda a, b, c, d: unit((a + b) / 2, (c + d) / 2)[k])
    return np.array([[[unit((tc[j] + tc[j + 1]) / 2, (pc[i] + pc[i + 1]) / 2)[k] for k in range(3)] for j in range(len(tc) - 1)] for i in range(len(pc) - 1)]), [u(0), u(1), u(2)]
''', corners, [_c + "unit_normals", _c + "centers_cartesian"], prop="G01")
ob("G01_corners", GE + '''
def impl(tc, pc):
    g = grid(tc, pc)
    return [x for x in g.corners()], [x for x in g.corners_cartesian()], g.shape
def spec(tc, pc):
    f = lambda q: np.array([[q(tc[j], pc[i]) for j in range(len(tc))] for i in range(len(pc))])
    return [f(lambda a, b: a), f(lambda a, b: b)], [f(lambda a, b: unit(a, b)[0]), f(lambda a, b: unit(a, b)[1]), f(lambda a, b: unit(a, b)[2])], (len(pc), len(tc))
''', corners, [_c + "corners", _c + "corners_cartesian", _c + "shape"], prop="G01")
ob("G01_closed", GE + '''
def impl(n, m): return np.sum(ge.ZdiGeometry(n, m).areas())
def spec(n, m): return 4 * math.pi
''', lambda h: [h.int("n", 2, 5), h.int("m", 2, 5)], _c + "areas", prop="G01")
ob("G01_inputs", GE + '''
def impl(tc, pc):
    g = grid(tc, pc)
    g.areas(); g.centers(); g.unit_normals(); g.corners_cartesian(); g.projected_visible_area_fraction(np.array([1.0, 0.0, 0.5]))
    return vc_shares(g, tc), vc_shares(g, pc), tc, pc, [x for x in g.corners()]
def spec(tc, pc):
    f = lambda q: np.array([[q(tc[j], pc[i]) for j in range(len(tc))] for i in range(len(pc))])
    return False, False, tc, pc, [f(lambda a, b: a), f(lambda a, b: b)]
''', corners, _c + "__init__", prop="N01")

for _n, _call, _a, _b in (("two", "ge.ZdiGeometry(n, m)", "n", "m"), ("one", "ge.ZdiGeometry(n)", "n", "2 * n"), ("none", "ge.ZdiGeometry()", "65", "130"),
                          ("keywords", "ge.ZdiGeometry(azimuthal_corners=m, polar_corners=n)", "n", "m")):
    ob("G02_" + _n, GE + '''
def impl(n, m):
    g = %s
    return [x for x in g.corners()], g.shape
def spec(n, m):
    t, p = space(math.pi, %s), space(2 * math.pi, %s)
    return [np.array([[x for x in t] for y in p]), np.array([[y for x in t] for y in p])], (len(p), len(t))
''' % (_call, _a, _b), lambda h: [h.int("n", 2, 5), h.int("m", 2, 5)], _c + "__init__", prop="G02")
ob("G02_arrays", GE + '''
def impl(tc, pc):
    return [x for x in ge.ZdiGeometry(tc, pc).corners()]
def spec(tc, pc):
    t0, t1, p0, p1 = min([x for x in tc]), max([x for x in tc]), min([x for x in pc]), max([x for x in pc])
    if t1 - t0 > math.pi or p1 - p0 > 2 * math.pi: raise AssertionError
    return [np.array([[x for x in tc] for y in pc]), np.array([[y for x in tc] for y in pc])]
''', lambda h: [h.arr("wtc", [h.size("T", 2, 4)], "f", lo=-1.0, hi=3.5), h.arr("wpc", [h.size("F", 2, 4)], "f", lo=-1.0, hi=6.5)], _c + "__init__", prop="G02")
ob("G02_integer_polar", GE + '''
def impl(tc, pc, n):
    return [x for x in ge.ZdiGeometry(tc, pc).corners()]
def spec(tc, pc, n):
    if max([x for x in tc]) - min([x for x in tc]) > math.pi or max([x for x in pc]) - min([x for x in pc]) > 2 * math.pi: raise AssertionError
    return [np.array([[x for x in tc] for y in pc]), np.array([[y for x in tc] for y in pc])]
''', lambda h: [h.arr("itc", [h.size("T", 2, 4)], "i", dist=irange(0, 4)), h.arr("ipc", [h.size("F", 2, 4)], "i", dist=irange(0, 7)), h.int("n", 2, 5)], _c + "__init__", prop="G02")
ob("G02_numpy_counts", GE + '''
def impl(n, m):
    return [x for x in ge.ZdiGeometry(n, m).corners()]
def spec(n, m):
    t, p = space(math.pi, n), space(2 * math.pi, m)
    return [np.array([[x for x in t] for y in p]), np.array([[y for x in t] for y in p])]
''', lambda h: [h.int("n", 2, 5, np=True), h.int("m", 2, 5, np=True)], _c + "__init__", prop="G02")

ob("G03_fraction", GE + '''
def impl(tc, pc, d): return grid(tc, pc).projected_visible_area_fraction(d)
def spec(tc, pc, d):
    n = math.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2)
    def f(a, b, e, g):
        u = unit((a + b) / 2, (e + g) / 2)
        c = (u[0] * d[0] + u[1] * d[1] + u[2] * d[2]) / n
        return c if c > 0 else 0.0
    return each(tc, pc, f)
''', lambda h: corners(h) + [h.arr("dir", [const(3)], "f")], _c + "projected_visible_area_fraction", prop="G03")
ob("G03_integer", GE + '''
def impl(tc, pc, d): return grid(tc, pc).projected_visible_area_fraction(d)
def spec(tc, pc, d): return grid(tc, pc).projected_visible_area_fraction(np.array([float(x) for x in d]))
''', lambda h: corners(h) + [h.arr("idir", [const(3)], "i", dist=choices(-2, 1, 3))], _c + "projected_visible_area_fraction", prop="N02")

# ------------------------------------------------------------------ G04
GN = GE + ZD + '''
def stats(v, a):
    top, mean, sq, dev = 0.0, 0.0, 0.0, 0.0
    for i in range(v.shape[0]):
        for j in range(v.shape[1]):
            top = max(top, abs(v[i, j]))
            mean += abs(v[i, j]) * a[i, j] / (4 * math.pi)
            sq += v[i, j] ** 2 * a[i, j] / (4 * math.pi)
    for i in range(v.shape[0]):
        for j in range(v.shape[1]):
            dev += (abs(v[i, j]) - mean) ** 2 * a[i, j] / (4 * math.pi)
    return top, mean, math.sqrt(sq), math.sqrt(dev)
def described(z, g):
    t, p = g.centers()
    r = z.get_radial_poloidal_field(t, p), z.get_radial_toroidal_field(t, p)
    q = z.get_polar_poloidal_field_new(t, p), z.get_polar_toroidal_field(t, p)
    s = z.get_azimuthal_poloidal_field(t, p), z.get_azimuthal_toroidal_field_new(t, p)
    f = {"radial-poloidal": r[0], "radial-toroidal": r[1], "radial": r[0] + r[1],
         "polar-poloidal": q[0], "polar-toroidal": q[1], "polar": q[0] + q[1],
         "azimuthal-poloidal": s[0], "azimuthal-toroidal": s[1], "azimuthal": s[0] + s[1],
         "field strength": np.sqrt((r[0] + r[1]) ** 2 + (q[0] + q[1]) ** 2 + (s[0] + s[1]) ** 2)}
    return f
'''
for _part in ("radial-poloidal", "radial-toroidal", "radial", "polar-poloidal", "polar-toroidal", "polar", "azimuthal-poloidal", "azimuthal-toroidal", "azimuthal", "field strength"):
    ob("G04_" + _part.replace(" ", "_").replace("-", "_"), GN + '''
def impl(ls, ms, a, b, g, n, m):
    d = {"kept": 1}
    r = ge.numerical_description(ge.ZdiGeometry(n, m), zm.ZdiMagnetogram(ls, ms, a, b, g), d)
    return [r["magnetogram.%(p)s.abs." + k] for k in ("max", "mean", "rms", "std")], d["kept"], d["magnetogram.%(p)s.abs.max"]
def spec(ls, ms, a, b, g, n, m):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    y = ge.ZdiGeometry(n, m)
    s = stats(described(z, y)["%(p)s"], y.areas())
    return [x for x in s], 1, s[0]
''' % dict(p=_part), lambda h: coeffs(h) + [h.int("n", 2, 3), h.int("m", 2, 4)], "geometry:numerical_description", prop="G04", n=10)
ob("G04_names", GN + '''
def impl(ls, ms, a, b, g, n, m):
    return sorted(ge.numerical_description(ge.ZdiGeometry(n, m), zm.ZdiMagnetogram(ls, ms, a, b, g)))
def spec(ls, ms, a, b, g, n, m):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    return sorted(["magnetogram." + x + ".abs." + k for x in described(z, ge.ZdiGeometry(n, m)) for k in ("max", "mean", "rms", "std")])
''', lambda h: coeffs(h) + [h.int("n", 2, 3), h.int("m", 2, 4)], "geometry:numerical_description", prop="G04", n=10)

# ------------------------------------------------------------------ B01
BL = GE + ZD + '''
from starwinds_magnetogram import longitudinal_field as lf
def curve(z, g, inc, az):
    f, w, u = z.get_cartesian_field(*g.centers()), g.areas(), g.unit_normals()
    out = []
    for p in az:
        d = unit(inc, p)
        top = 0.0
        bot = 0.0
        for i in range(w.shape[0]):
            for j in range(w.shape[1]):
                mu = u[i, j, 0] * d[0] + u[i, j, 1] * d[1] + u[i, j, 2] * d[2]
                v = mu * w[i, j] if mu > 0 else 0.0
                top += (f[i, j, 0] * d[0] + f[i, j, 1] * d[1] + f[i, j, 2] * d[2]) * v
                bot += v
        out.append(top / bot)
    return np.array(out)
'''
_B = "longitudinal_field:get_longitudinal_field_curve"
ob("B01_curve", BL + '''
def impl(ls, ms, a, b, g, tc, pc, inc, az): return lf.get_longitudinal_field_curve(grid(tc, pc), zm.ZdiMagnetogram(ls, ms, a, b, g), inc, az)
def spec(ls, ms, a, b, g, tc, pc, inc, az): return curve(zm.ZdiMagnetogram(ls, ms, a, b, g), grid(tc, pc), inc, az)
''', lambda h: coeffs(h) + corners(h) + [h.real("inc", 0.1, 3.0), h.arr("oaz", [h.size("O", 1, 3)], "f")], _B, prop="B01", n=16)
ob("B01_integer", BL + '''
def impl(ls, ms, a, b, g, tc, pc, inc, az): return lf.get_longitudinal_field_curve(grid(tc, pc), zm.ZdiMagnetogram(ls, ms, a, b, g), inc, az)
def spec(ls, ms, a, b, g, tc, pc, inc, az): return curve(zm.ZdiMagnetogram(ls, ms, a, b, g), grid(tc, pc), inc, az)
''', lambda h: coeffs(h) + corners(h) + [h.real("inc", 0.1, 3.0), h.arr("ioaz", [h.size("O", 1, 3)], "i", dist=irange(-3, 6))], _B, prop=["B01", "N02"], n=16)
ob("B01_listed", BL + '''
def impl(ls, ms, a, b, g, tc, pc, inc, x, y): return lf.get_longitudinal_field_curve(grid(tc, pc), zm.ZdiMagnetogram(ls, ms, a, b, g), inc, [x, y])
def spec(ls, ms, a, b, g, tc, pc, inc, x, y): return curve(zm.ZdiMagnetogram(ls, ms, a, b, g), grid(tc, pc), inc, [x, y])
''', lambda h: coeffs(h) + corners(h) + [h.real("inc", 0.1, 3.0), h.real("o1"), h.real("o2")], _B, prop="B01", n=16)
ob("B01_default", BL + '''
def impl(ls, ms, a, b, g, n, m, inc): return lf.get_longitudinal_field_curve(ge.ZdiGeometry(n, m), zm.ZdiMagnetogram(ls, ms, a, b, g), inc)
def spec(ls, ms, a, b, g, n, m, inc): return curve(zm.ZdiMagnetogram(ls, ms, a, b, g), ge.ZdiGeometry(n, m), inc, space(2 * math.pi, m))
''', lambda h: coeffs(h) + [h.int("n", 3, 4), h.int("m", 4, 5), h.real("inc", 0.1, 3.0)], _B, prop="B01", n=10)
ob("B01_inputs", BL + '''
def impl(ls, ms, a, b, g, tc, pc, inc, az):
    z, y = zm.ZdiMagnetogram(ls, ms, a, b, g), grid(tc, pc)
    r = lf.get_longitudinal_field_curve(y, z, inc, az)
    return vc_shares(r, az), az, z.alpha, z.beta, z.gamma, z.degrees_l, z.orders_m, y.areas()
def spec(ls, ms, a, b, g, tc, pc, inc, az):
    return False, az, a, b, g, ls, ms, grid(tc, pc).areas()
''', lambda h: coeffs(h) + corners(h) + [h.real("inc", 0.1, 3.0), h.arr("oaz", [h.size("O", 1, 3)], "f")], _B, prop="N01")

# ------------------------------------------------------------------ W01
WP = '''
import scipy.special
import scipy.constants
from starwinds_magnetogram import parker_solution as ps
G, MP, KB = scipy.constants.gravitational_constant, scipy.constants.proton_mass, scipy.constants.Boltzmann
def rhs(x): return 4 * math.log(x) + 4 * (1 / x - 1)
def w(x): return math.sqrt(-scipy.special.lambertw(-math.exp(-rhs(x) - 1), 0 if x < 1 else -1).real)
def sonic(T, M): return G * M * MP / (4 * T * KB), math.sqrt(2 * KB * T / MP)
def speed(T, rho, R, M, r):
    rs, cs = sonic(T, M)
    return cs * w(max(r, R) / rs)
def density(T, rho, R, M, r):
    return rho * speed(T, rho, R, M, R) * R ** 2 / (speed(T, rho, R, M, r) * max(r, R) ** 2)
'''
_par = lambda h: [h.real("temp", 0.8e6, 4e6), h.real("rho", 1e-14, 1e-11), h.real("rstar", 4e8, 9e8), h.real("mass", 1e30, 3e30)]
_rad = lambda h: [h.arr("prad", [h.size("P")], "f", lo=3e8, hi=3e10)]
_irad = lambda h: [h.arr("iprad", [h.size("P")], "i", dist=irange(3 * 10 ** 8, 3 * 10 ** 10))]
_w = "parker_solution:ParkerSolution."
for _t, _r in (("", _rad), ("_integer", _irad)):
    ob("W01_speed" + _t, WP + '''
def impl(T, rho, R, M, r): return ps.ParkerSolution(T, rho, R, M).speed(r)
def spec(T, rho, R, M, r): return np.array([speed(T, rho, R, M, x) for x in r])
''', (lambda r: lambda h: _par(h) + r(h))(_r), _w + "speed", prop="W01" if not _t else "N02")
    ob("W01_density" + _t, WP + '''
def impl(T, rho, R, M, r): return ps.ParkerSolution(T, rho, R, M).density(r)
def spec(T, rho, R, M, r): return np.array([density(T, rho, R, M, x) for x in r])
''', (lambda r: lambda h: _par(h) + r(h))(_r), _w + "density", prop="W01" if not _t else "N02")
    ob("W01_flux" + _t, WP + '''
def impl(T, rho, R, M, r):
    p = ps.ParkerSolution(T, rho, R, M)
    x = np.maximum(r, R)
    return 4 * math.pi * x ** 2 * p.speed(r) * p.density(r), 4 * math.pi * x ** 2 * p.speed(x) * p.density(x)
def spec(T, rho, R, M, r):
    f = ps.ParkerSolution(T, rho, R, M).total_mass_flux[0]
    return np.array([f for x in r]), np.array([f for x in r])
''', (lambda r: lambda h: _par(h) + r(h))(_r), [_w + "speed", _w + "density", _w + "total_mass_flux"], prop="W01" if not _t else "N02")
ob("W01_total_flux", WP + '''
def impl(T, rho, R, M): return ps.ParkerSolution(T, rho, R, M).total_mass_flux
def spec(T, rho, R, M): return np.array([4 * math.pi * R ** 2 * rho * speed(T, rho, R, M, R)])
''', _par, _w + "total_mass_flux", prop="W01")
ob("W01_points", WP + '''
def impl(T, rho, R, M):
    p = ps.ParkerSolution(T, rho, R, M)
    return p.radius_sonic, p.speed_sonic, p.density(R), p.speed(p.radius_sonic)
def spec(T, rho, R, M):
    rs, cs = sonic(T, M)
    return rs, cs, np.array([rho]), np.array([speed(T, rho, R, M, rs)])
''', _par, [_w + "__init__", _w + "speed", _w + "density"], prop="W01")
ob("W01_equation", WP + '''
def impl(T, rho, R, M, r):
    p = ps.ParkerSolution(T, rho, R, M)
    return p.parker_lhs(p.speed(r) / p.speed_sonic), p.parker_rhs(np.maximum(r, R) / p.radius_sonic)
def spec(T, rho, R, M, r):
    rs, cs = sonic(T, M)
    q = np.array([rhs(max(x, R) / rs) for x in r])
    return q, q
''', lambda h: _par(h) + _rad(h), [_w + "speed"], prop="W01")
ob("W01_branches", WP + '''
def impl(T, rho, R, M, r):
    p = ps.ParkerSolution(T, rho, R, M)
    return np.array([(p.speed(r)[i] < p.speed_sonic) for i in range(len(r))])
def spec(T, rho, R, M, r):
    rs, cs = sonic(T, M)
    return np.array([max(x, R) < rs for x in r])
''', lambda h: _par(h) + _rad(h), [_w + "speed"], prop="W01")
ob("W01_all_solutions", WP + '''
def impl(x, y):
    low, high = ps.ParkerSolution.find_parker_analytic(x, True)
    one = ps.AnalyticBase.find_parker_analytic(y)
    return low, high, one
def branch(x, k): return math.sqrt(-scipy.special.lambertw(-math.exp(-rhs(x) - 1), k).real)
def spec(x, y):
    return np.array([branch(a, 0) for a in x]), np.array([branch(a, -1) for a in x]), np.array([w(a) for a in y])
''', lambda h: [h.arr("pdim", [h.size("P")], "f", lo=0.2, hi=6.0), h.arr("pdim2", [h.size("P")], "f", lo=0.2, hi=6.0)], "parker_solution:AnalyticBase.find_parker_analytic", prop="W01")
ob("W01_defaults", WP + '''
def impl(r): return ps.ParkerSolution().speed(r), ps.ParkerSolution().density(r)
def spec(r):
    a = (1.5e6, 1.5e14 * MP, 6.95510e8, 1.989e30)
    return np.array([speed(*a, x) for x in r]), np.array([density(*a, x) for x in r])
''', _rad, _w + "__init__", prop="W01")
ob("W01_inputs", WP + '''
def impl(T, rho, R, M, r):
    p = ps.ParkerSolution(T, rho, R, M)
    a, b = p.speed(r), p.density(r)
    return vc_shares(a, r), vc_shares(b, r), vc_shares(a, p), vc_shares(b, p), r
def spec(T, rho, R, M, r): return False, False, False, False, r
''', lambda h: _par(h) + _rad(h), [_w + "speed", _w + "density"], prop="N01")

# ------------------------------------------------------------------ I01, I02
IM = GE + '''
import scipy.special
from starwinds_magnetogram import image_converter as im
def Y(l, m, t, p): return scipy.special.sph_harm(m, l, p, t)
def analysed(img, t, p, dt, dp, top):
    out = {}
    for l in range(0, top):
        for m in range(-l, l + 1):
            s = 0j
            for i in range(img.shape[0]):
                for j in range(img.shape[1]):
                    s += Y(l, m, t[j], p[i]).conjugate() * img[i, j] * math.sin(t[j]) * dt[j] * dp[i]
            out[(l, m)] = np.array([s])
    return out
def mids(c): return [(c[i] + c[i + 1]) / 2 for i in range(len(c) - 1)]
def gaps(c): return [c[i + 1] - c[i] for i in range(len(c) - 1)]
'''


def image(h, k="f"):
    n, m = h.size("T", 2, 4), h.size("F", 2, 4)
    one_ = const(1)
    from ..terms import sub
    return [h.arr("img" + k, [sub(m, one_), sub(n, one_)], k)]


ob("I01_analyse", IM + '''
def impl(img, tc, pc, top):
    c, g = im.from_image(img, grid(tc, pc), top)
    return obs(c), [x for x in g.corners()]
def spec(img, tc, pc, top):
    f = lambda q: np.array([[q(tc[j], pc[i]) for j in range(len(tc))] for i in range(len(pc))])
    return analysed(img, mids(tc), mids(pc), gaps(tc), gaps(pc), top), [f(lambda a, b: a), f(lambda a, b: b)]
''', lambda h: image(h) + corners(h) + [h.int("top", 0, 3)], "image_converter:from_image", prop="I01", n=12)
ob("I01_analyse_complex", IM + '''
def impl(img, tc, pc, top):
    c, g = im.from_image(img, grid(tc, pc), lmax=top)
    return obs(c)
def spec(img, tc, pc, top):
    return analysed(img, mids(tc), mids(pc), gaps(tc), gaps(pc), top)
''', lambda h: image(h, "c") + corners(h) + [h.int("top", 0, 3)], "image_converter:from_image", prop="I01", n=12)
ob("I01_default_grid", IM + '''
def impl(img, top):
    c, g = im.from_image(img, lmax=top)
    return obs(c), [x for x in g.corners()]
def spec(img, top):
    tc, pc = space(math.pi, img.shape[1] + 1), space(2 * math.pi, img.shape[0] + 1)
    f = lambda q: np.array([[q(tc[j], pc[i]) for j in range(len(tc))] for i in range(len(pc))])
    return analysed(img, mids(tc), mids(pc), gaps(tc), gaps(pc), top), [f(lambda a, b: a), f(lambda a, b: b)]
''', lambda h: [h.arr("imgd", [h.size("F1", 1, 3), h.size("T1", 1, 3)], "f"), h.int("top", 0, 3)], "image_converter:from_image", prop="I01", n=12)
ob("I01_synthesise", IM + '''
def impl(ia, tc, pc):
    return im.to_image(build(ia, 1), grid(tc, pc))
def spec(ia, tc, pc):
    t, p = mids(tc), mids(pc)
    def one(a, b):
        s = 0j
        for (l, m), v in ia.items(): s += v[0] * Y(l, m, a, b)
        return s
    return np.array([[one(a, b) for a in t] for b in p])
''', lambda h: [h.cmap("F1", const(1))] + corners(h), "image_converter:to_image", prop="I01", n=12)
ob("I01_inputs", IM + '''
def impl(ia, img, tc, pc, top):
    a, g = build(ia, 1), grid(tc, pc)
    c, y = im.from_image(img, g, top)
    r = im.to_image(a, g)
    return vc_shares(c, img), vc_shares(r, a), obs(a), img, [x for x in g.corners()]
def spec(ia, img, tc, pc, top):
    f = lambda q: np.array([[q(tc[j], pc[i]) for j in range(len(tc))] for i in range(len(pc))])
    return False, False, {k: v for k, v in ia.items()}, img, [f(lambda a, b: a), f(lambda a, b: b)]
''', lambda h: [h.cmap("F1", const(1))] + image(h) + corners(h) + [h.int("top", 0, 3)], ["image_converter:to_image", "image_converter:from_image"], prop="N01")
for _cached in ("True", "False", ""):
    _kw = ", use_cache=" + _cached if _cached else ""
    ob("I02_grid_" + (_cached or "default"), IM + '''
def impl(l, m, tc, pc):
    t, p = grid(tc, pc).centers()
    return im.spherical_harmonic(m, l, p, t%s)
def spec(l, m, tc, pc):
    return np.array([[Y(l, m, a, b) for a in mids(tc)] for b in mids(pc)])
''' % _kw, lambda h: [h.int("pl", 0, dist=choices(2, 3)), h.int("pm", dist=choices(-2, -1, 0, 1, 2))] + corners(h), "image_converter:spherical_harmonic", prop="I02")
    ob("I02_points_" + (_cached or "default"), IM + '''
def impl(l, m, t, p):
    return im.spherical_harmonic(m, l, p, t%s)
def spec(l, m, t, p):
    return np.array([[Y(l, m, t[i, j], p[i, j]) for j in range(t.shape[1])] for i in range(t.shape[0])])
''' % _kw, lambda h: [h.int("pl", 0, dist=choices(2, 3)), h.int("pm", dist=choices(-2, -1, 0, 1, 2))] + (lambda d: [h.arr("yt", d, "f", lo=0.1, hi=3.0), h.arr("yp", d, "f")])([h.size("A", 1, 3), h.size("B", 1, 3)]),
       "image_converter:spherical_harmonic", prop="I02")
    ob("I02_list_" + (_cached or "default"), IM + '''
def impl(l, m, t, p):
    return im.spherical_harmonic(m, l, p, t%s)
def spec(l, m, t, p):
    return np.array([Y(l, m, t[i], p[i]) for i in range(len(t))])
''' % _kw, lambda h: [h.int("pl", 0, dist=choices(2, 3)), h.int("pm", dist=choices(-2, -1, 0, 1, 2))] + (lambda d: [h.arr("yt1", d, "f", lo=0.1, hi=3.0), h.arr("yp1", d, "f")])([h.size("A", 1, 3)]),
       "image_converter:spherical_harmonic", prop="I02")

# ------------------------------------------------------------------ N05
FS = '''
from starwinds_magnetogram import fibonacci_sphere as fs
def sphere(n, start):
    out = []
    for i in range(n):
        y = (2 * i + 1) / n - 1
        r = math.sqrt(1 - y * y)
        a = ((i + start) % n) * math.pi * (3 - math.sqrt(5))
        out.append([r * math.cos(a), y, r * math.sin(a)])
    return np.array(out)
'''
ob("N05_points", FS + '''
def impl(n): return fs.fibonacci_sphere(n), fs.fibonacci_sphere(n).shape
def spec(n): return sphere(n, 1.0), (n, 3)
''', lambda h: [h.int("n", 1, 6)], "fibonacci_sphere:fibonacci_sphere", prop="N05")
ob("N05_unit", FS + '''
def impl(n): return np.sum(fs.fibonacci_sphere(n) ** 2, axis=-1)
def spec(n): return np.array([1.0 for i in range(n)])
''', lambda h: [h.int("n", 1, 6)], "fibonacci_sphere:fibonacci_sphere", prop="N05")
ob("N05_random_unit", FS + '''
def impl(n):
    x = fs.fibonacci_sphere(n, True)
    return np.sum(x ** 2, axis=-1), x[:, 1], x.shape
def spec(n): return np.array([1.0 for i in range(n)]), np.array([(2 * i + 1) / n - 1 for i in range(n)]), (n, 3)
''', lambda h: [h.int("n", 1, 6)], "fibonacci_sphere:fibonacci_sphere", prop="N05")
