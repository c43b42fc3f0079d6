"""ZDI magnetogram: Z01-Z07, V04."""
from ..oblig import *
from .coeffs import CO
from ..terms import *

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


ZD = '''
import scipy.special
from starwinds_magnetogram import zdi_magnetogram as zm
from starwinds_magnetogram import coefficients as sc

def norm(l, m):
    return math.sqrt((2 * l + 1) / (4 * math.pi) * scipy.special.factorial(l - m) / scipy.special.factorial(l + m))
def P(l, m, t):
    return scipy.special.lpmv(m, l, math.cos(t))
def dP(l, m, t):
    # derivative of P(cos t) in t, by the recurrence in degree
    if l == 0: return 0.0
    return (l * math.cos(t) * P(l, m, t) - (l + m) * P(l - 1, m, t)) / math.sin(t)
def E(m, a):
    return cmath.exp(1j * m * a)
def r_pol(c, t, p):
    l, m, a, b, g = c
    return (a * norm(l, m) * P(l, m, t) * E(m, p)).real
def r_tor(c, t, p):
    return 0.0
def t_pol(c, t, p):
    l, m, a, b, g = c
    return -(b * norm(l, m) / (l + 1) * dP(l, m, t) * E(m, p)).real
def p_pol(c, t, p):
    l, m, a, b, g = c
    return -(b * norm(l, m) / (l + 1) * 1j * m * P(l, m, t) / math.sin(t) * E(m, p)).real
def t_tor(c, t, p):
    l, m, a, b, g = c
    return (g * norm(l, m) / (l + 1) * 1j * m * P(l, m, t) / math.sin(t) * E(m, p)).real
def p_tor(c, t, p):
    l, m, a, b, g = c
    return -(g * norm(l, m) / (l + 1) * dP(l, m, t) * E(m, p)).real
def total(f, ls, ms, a, b, g, t, p):
    s = 0.0
    for i in range(len(ls)):
        s += f((ls[i], ms[i], a[i], b[i], g[i]), t, p)
    return s
def field1(f, ls, ms, a, b, g, t, p):
    return np.array([total(f, ls, ms, a, b, g, t[i], p[i]) for i in range(len(t))])
def field2(f, ls, ms, a, b, g, t, p):
    return np.array([[total(f, ls, ms, a, b, g, t[i, j], p[i, j]) for j in range(t.shape[1])] for i in range(t.shape[0])])
'''


def mdist(neg_=True):
    def f(r, idx, I):
        l = I.atom("zl", idx)
        return r.randint(-l if neg_ else 0, l)
    return f


def coeffs(h, negative=True, k="c", lmin=0):
    n = h.size("N", 1, 4)
    ls = h.arr("zl" if lmin == 0 else "zl1", [n], "i", dist=irange(lmin, 3))
    nm = "zm" if negative else "zmp"
    return [ls, h.arr(nm, [n], "i", dist=mdist(negative)), h.arr("za", [n], k), h.arr("zb", [n], k), h.arr("zg", [n], k)]


def pts(h, rank, k="f"):
    d = [h.size("P%d" % i, 1, 3) for i in range(rank)]
    if k == "i":
        return [h.arr("zti%d" % rank, d, "i", dist=choices(1, 2, 3)), h.arr("zpi%d" % rank, d, "i", dist=irange(-3, 6))]
    return [h.arr("zt%d" % rank, d, "f", lo=0.2, hi=2.9), h.arr("zp%d" % rank, d, "f", lo=-3.0, hi=6.0)]


GET = {"r_pol": "get_radial_poloidal_field", "r_tor": "get_radial_toroidal_field", "t_pol": "get_polar_poloidal_field_new",
       "p_pol": "get_azimuthal_poloidal_field", "t_tor": "get_polar_toroidal_field", "p_tor": "get_azimuthal_toroidal_field_new"}
for _c, _m in GET.items():
    for _rank in (1, 2):
        ob("Z01_%s_%dd" % (_c, _rank), ZD + '''
def impl(ls, ms, a, b, g, t, p):
    return zm.ZdiMagnetogram(ls, ms, a, b, g).%s(t, p)
def spec(ls, ms, a, b, g, t, p):
    return field%d(%s, ls, ms, a, b, g, t, p)
''' % (_m, _rank, _c), (lambda rank: lambda h: coeffs(h) + pts(h, rank))(_rank), "zdi_magnetogram:ZdiMagnetogram." + _m, prop="Z01", n=24)
    ob("Z01_%s_int" % _c, ZD + '''
def impl(ls, ms, a, b, g, t, p):
    return zm.ZdiMagnetogram(ls, ms, a, b, g).%s(t, p)
def spec(ls, ms, a, b, g, t, p):
    return field1(%s, ls, ms, a, b, g, t, p)
''' % (_m, _c), lambda h: coeffs(h) + pts(h, 1, "i"), "zdi_magnetogram:ZdiMagnetogram." + _m, prop="N02", n=24)
for _d, _m, _x, _y in (("r", "get_radial_field", "r_pol", "r_tor"), ("t", "get_polar_field", "t_pol", "t_tor"), ("p", "get_azimuthal_field", "p_pol", "p_tor")):
    ob("Z02_total_" + _d, ZD + '''
def impl(ls, ms, a, b, g, t, p):
    return zm.ZdiMagnetogram(ls, ms, a, b, g).%s(t, p)
def spec(ls, ms, a, b, g, t, p):
    return field2(%s, ls, ms, a, b, g, t, p) + field2(%s, ls, ms, a, b, g, t, p)
''' % (_m, _x, _y), lambda h: coeffs(h) + pts(h, 2), "zdi_magnetogram:ZdiMagnetogram." + _m, prop="Z02", n=24)
ob("Z02_strength", ZD + '''
def impl(ls, ms, a, b, g, t, p):
    return zm.ZdiMagnetogram(ls, ms, a, b, g).get_field_strength(t, p)
def spec(ls, ms, a, b, g, t, p):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    return np.sqrt(z.get_radial_field(t, p) ** 2 + z.get_polar_field(t, p) ** 2 + z.get_azimuthal_field(t, p) ** 2)
''', lambda h: coeffs(h) + pts(h, 2), "zdi_magnetogram:ZdiMagnetogram.get_field_strength", prop="Z02", n=12)
ob("Z02_table", ZD + '''
def impl(ls, ms, a, b, g, t, p):
    d = zm.ZdiMagnetogram(ls, ms, a, b, g).get_all()
    return {k: sorted(d[k]) for k in d}, [d[x][y](t, p) for x in ("radial", "polar", "azimuthal") for y in ("poloidal", "toroidal")]
def spec(ls, ms, a, b, g, t, p):
    n = ["poloidal", "toroidal"]
    return ({"radial": n, "polar": n, "azimuthal": n},
            [field1(f, ls, ms, a, b, g, t, p) for f in (r_pol, r_tor, t_pol, t_tor, p_pol, p_tor)])
''', lambda h: coeffs(h) + pts(h, 1), "zdi_magnetogram:ZdiMagnetogram.get_all", prop="Z02", n=16)

# ------------------------------------------------------------------ Z03
CART = ZD + '''
def cart(fr, ft, fp, t, p):
    st, ct, sp, cp = math.sin(t), math.cos(t), math.sin(p), math.cos(p)
    return [fr * st * cp + ft * ct * cp - fp * sp, fr * st * sp + ft * ct * sp + fp * cp, fr * ct - ft * st]
'''
for _rank in (1, 2):
    _ex = {1: "np.array([cart(fr[i], ft[i], fp[i], t[i], p[i]) for i in range(len(t))])",
           2: "np.array([[cart(fr[i, j], ft[i, j], fp[i, j], t[i, j], p[i, j]) for j in range(t.shape[1])] for i in range(t.shape[0])])"}[_rank]
    for _n, _m, _r, _t, _p in (("full", "get_cartesian_field", "get_radial_field", "get_polar_field", "get_azimuthal_field"),
                               ("poloidal", "get_cartesian_poloidal_field", "get_radial_poloidal_field", "get_polar_poloidal_field_new", "get_azimuthal_poloidal_field"),
                               ("toroidal", "get_cartesian_toroidal_field", "get_radial_toroidal_field", "get_polar_toroidal_field", "get_azimuthal_toroidal_field_new")):
        ob("Z03_%s_%dd" % (_n, _rank), CART + '''
def impl(ls, ms, a, b, g, t, p):
    return zm.ZdiMagnetogram(ls, ms, a, b, g).%s(t, p)
def spec(ls, ms, a, b, g, t, p):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    fr, ft, fp = z.%s(t, p), z.%s(t, p), z.%s(t, p)
    return %s
''' % (_m, _r, _t, _p, _ex), (lambda rank: lambda h: coeffs(h) + pts(h, rank))(_rank), "zdi_magnetogram:ZdiMagnetogram." + _m, prop="Z03", n=12)

# ------------------------------------------------------------------ Z04
Z4 = ZD + '''
def parts(z):
    return [z.degrees_l, z.orders_m, z.alpha, z.beta, z.gamma]
def kept(ls, ms, a, b, g, l0, l1, m0, m1):
    k = [i for i in range(len(ls)) if l0 <= ls[i] <= l1 and m0 <= ms[i] <= m1]
    if len(k) == 0: raise ValueError
    return [np.array([x[i] for i in k]) for x in (ls, ms, a, b, g)] + [np.array([norm(ls[i], ms[i]) for i in k])]
'''
for _n, _call, _args, _b in (
        ("none", "as_restricted()", (), None),
        ("both", "as_restricted((l0, l1), (m0, m1))", ("l0", "l1", "m0", "m1"), ("l0", "l1", "m0", "m1")),
        ("degree", "as_restricted((l0, l1), (m0, 1000))", ("l0", "l1", "m0"), ("l0", "l1", "m0", "1000")),
        ("single", "as_restricted(l0, m0)", ("l0", "m0"), ("l0", "l0", "m0", "m0")),
        ("keywords", "as_restricted(order_m_range=(m0, m1), degree_l_range=l0)", ("l0", "m0", "m1"), ("l0", "l0", "m0", "m1")),
        ("order", "as_restricted(order_m_range=m0)", ("m0",), ("0", "1000", "m0", "m0")),
        ("pair", "as_restricted([l0, l1], m0)", ("l0", "l1", "m0"), ("l0", "l1", "m0", "m0"))):
    _bb = _b or ("0", "1000", "-1000", "1000")
    ob("Z04_restricted_" + _n, Z4 + '''
def impl(ls, ms, a, b, g%(x)s):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g).%(call)s
    return parts(z) + [z.c_lm]
def spec(ls, ms, a, b, g%(x)s):
    return kept(ls, ms, a, b, g, %(b)s)
''' % dict(x="".join(", " + q for q in _args), call=_call, b=", ".join(_bb)),
       (lambda args, n: lambda h: coeffs(h, negative=n != "none") + [h.int("q" + q, dist=choices(*((0, 1, 2, 3) if q[0] == "l" else (-2, -1, 0, 1, 2)))) for q in args])(_args, _n),
       "zdi_magnetogram:ZdiMagnetogram.as_restricted", prop="Z04")
ob("Z04_dipole", Z4 + '''
def impl(ls, ms, a, b, g):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g).as_dipole()
    return parts(z) + [z.c_lm]
def spec(ls, ms, a, b, g):
    return kept(ls, ms, a, b, g, 1, 1, -1000, 1000)
''', lambda h: coeffs(h), "zdi_magnetogram:ZdiMagnetogram.as_dipole", prop="Z04")
ob("Z04_parts", Z4 + '''
def impl(ls, ms, a, b, g):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    return [parts(y) + [y.c_lm] for y in (z.as_poloidal(), z.as_toroidal(), z.copy(), z)]
def spec(ls, ms, a, b, g):
    o = np.zeros(len(ls), dtype=complex)
    c = np.array([norm(l, m) for l, m in zip(ls, ms)])
    return [[ls, ms, a, b, o, c], [ls, ms, o, o, g, c], [ls, ms, a, b, g, c], [ls, ms, a, b, g, c]]
''', lambda h: coeffs(h), ["zdi_magnetogram:ZdiMagnetogram.as_poloidal", "zdi_magnetogram:ZdiMagnetogram.as_toroidal", "zdi_magnetogram:ZdiMagnetogram.copy"], prop="Z04")
ob("Z04_source", Z4 + '''
def impl(ls, ms, a, b, g, l0, m0):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    r = [z.as_poloidal(), z.as_toroidal(), z.copy()]
    s = [vc_shares(y, z) for y in r]
    z.as_dipole(); z.as_restricted(l0, m0); z.energy(dest={}); z.energy_matrix()
    return s, parts(z), z.c_lm
def spec(ls, ms, a, b, g, l0, m0):
    return [False] * 3, [ls, ms, a, b, g], np.array([norm(l, m) for l, m in zip(ls, ms)])
''', lambda h: coeffs(h) + [h.int("ql0", dist=choices(0, 1, 2, 3)), h.int("qm0", dist=choices(-1, 0, 1))], "zdi_magnetogram:ZdiMagnetogram", prop="Z04")
ob("Z04_restricted_shares", Z4 + '''
def impl(ls, ms, a, b, g, l0, m0):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    return vc_shares(z.as_restricted(l0, m0), z), vc_shares(z.as_dipole(), z)
def spec(ls, ms, a, b, g, l0, m0):
    return False, False
''', lambda h: coeffs(h) + [h.int("ql0", dist=choices(0, 1, 2, 3)), h.int("qm0", dist=choices(-1, 0, 1))], "zdi_magnetogram:ZdiMagnetogram.as_restricted", prop="Z04")

# ------------------------------------------------------------------ Z05
EN = ZD + '''
def en(c, l, m, term):
    e = c.real ** 2 if m == 0 else (c.real ** 2 + c.imag ** 2) / 2
    return e * l / (l + 1) if term else e
def energies(ls, ms, a, b, g):
    n = range(len(ls))
    return ([en(a[i], ls[i], ms[i], False) for i in n], [en(b[i], ls[i], ms[i], True) for i in n], [en(g[i], ls[i], ms[i], True) for i in n])
def tot(e):
    s = 0.0
    for v in e: s += v
    return s
'''
FR = EN + '''
def sel(e, ls, ms, l, axi):
    s = 0.0
    for i in range(len(e)):
        if (l is None or ls[i] == l) and (not axi or ms[i] == 0): s += e[i]
    return s
def fractions(ls, ms, a, b, g):
    ea, eb, eg = energies(ls, ms, a, b, g)
    ep = [x + y for x, y in zip(ea, eb)]
    A, P, T = tot(ea), tot(ea) + tot(eb), tot(eg)
    d = {}
    def put(k, v): d['magnetogram.' + k] = v
    put('total.energy.B2', P + T)
    put('radial.energy.fraction', A / (P + T))
    put('poloidal.energy.fraction', P / (P + T))
    put('toroidal.energy.fraction', T / (P + T))
    put('total.energy.dipole.fraction', sel(ep, ls, ms, 1, False) / P)
    put('total.energy.quadrupole.fraction', sel(ep, ls, ms, 2, False) / P)
    put('total.energy.octopole.fraction', sel(ep, ls, ms, 3, False) / P)
    for l in (1, 2, 3):
        put('total.energy.toroidal.l%d.fraction' % l, sel(eg, ls, ms, l, False) / T)
    for l in range(1, 16):
        put('pol.energy.l%d.fraction' % l, sel(ep, ls, ms, l, False) / P)
        put('tor.energy.l%d.fraction' % l, sel(eg, ls, ms, l, False) / T)
    put('total.energy.axisymmetric.fraction', (sel(ep, ls, ms, None, True) + sel(eg, ls, ms, None, True)) / (P + T))
    put('total.energy.radial.axisymmetric.fraction', sel(ea, ls, ms, None, True) / P)
    put('total.energy.poloidal.axisymmetric.fraction', sel(ep, ls, ms, None, True) / P)
    put('total.energy.toroidal.axisymmetric.fraction', sel(eg, ls, ms, None, True) / T)
    put('total.energy.dipole.axisymmetric.fraction', sel(ep, ls, ms, 1, True) / sel(ep, ls, ms, 1, False))
    return d
'''
ob("Z05_return", EN + '''
def impl(ls, ms, a, b, g):
    d = {}
    return zm.ZdiMagnetogram(ls, ms, a, b, g).energy(dest=d)
def spec(ls, ms, a, b, g):
    x, y, z = energies(ls, ms, a, b, g)
    return np.array(x), np.array(y), np.array(z)
''', lambda h: coeffs(h), "zdi_magnetogram:ZdiMagnetogram.energy", prop="Z05")
ob("Z05_dict", FR + '''
def impl(ls, ms, a, b, g):
    d = {}
    zm.ZdiMagnetogram(ls, ms, a, b, g).energy(dest=d)
    return d
def spec(ls, ms, a, b, g):
    return fractions(ls, ms, a, b, g)
''', lambda h: coeffs(h), "zdi_magnetogram:ZdiMagnetogram.energy", prop="Z05")
ob("Z05_keeps", FR + '''
def impl(ls, ms, a, b, g):
    d = {"other": 1}
    zm.ZdiMagnetogram(ls, ms, a, b, g).energy(dest=d, show_fractions=True)
    return d["other"], len(vc_written()), d["magnetogram.total.energy.B2"]
def spec(ls, ms, a, b, g):
    return 1, 0, fractions(ls, ms, a, b, g)["magnetogram.total.energy.B2"]
''', lambda h: coeffs(h), "zdi_magnetogram:ZdiMagnetogram.energy", prop="Z05")
PR = FR + '''
def lines(ls, ms, a, b, g, each):
    d = fractions(ls, ms, a, b, g)
    def f(k): return d['magnetogram.' + k]
    out = []
    if each:
        out.append("Fraction of magnetic energy in each component. Should sum to 1.")
        out.append("  l    m       E_alpha        E_beta       E_gamma")
        T = f('total.energy.B2')
        for l, m, x, y, z in zip(ls, ms, *energies(ls, ms, a, b, g)):
            out.append(f"{l:3}  {m:3}  {x/T:e}  {y/T:e}  {z/T:e}")
    out.append(f"Total energy: {f('total.energy.B2'):.3g} (B^2)")
    out.append(f"Radial   energy* {f('radial.energy.fraction'):5.1%}")
    out.append(f"Poloidal energy  {f('poloidal.energy.fraction'):5.1%}")
    out.append(f"Toroidal energy  {f('toroidal.energy.fraction'):5.1%}")
    out.append("* The radial energy is part of the poloidal energy.")
    out.append(f"poloidal l1 (dipole):     {f('total.energy.dipole.fraction'):5.1%} (% poloidal)")
    out.append(f"poloidal l2 (quadrupole): {f('total.energy.quadrupole.fraction'):5.1%} (% poloidal)")
    out.append(f"poloidal l3 (octopole):   {f('total.energy.octopole.fraction'):5.1%} (% poloidal)")
    for l in (1, 2, 3):
        out.append(f"toroidal l{l}: {f('total.energy.toroidal.l%d.fraction' % l):5.1%} (% toroidal)")
    out.append(f"axisymmetric:          {f('total.energy.axisymmetric.fraction'):5.1%} (% total)")
    out.append(f"poloidal axisymmetric: {f('total.energy.poloidal.axisymmetric.fraction'):5.1%} (% poloidal)")
    out.append(f"toroidal axisymmetric: {f('total.energy.toroidal.axisymmetric.fraction'):5.1%} (% toroidal)")
    out.append(f"dipole axisymmetric:   {f('total.energy.dipole.axisymmetric.fraction'):5.1%} (% dipole)")
    return out
'''
for _e in (False, True):
    ob("Z05_printed%s" % ("_each" if _e else ""), PR + '''
def impl(ls, ms, a, b, g):
    zm.ZdiMagnetogram(ls, ms, a, b, g).energy(show_fractions=%s)
    return vc_printed()
def spec(ls, ms, a, b, g):
    return "".join([x + "\\n" for x in lines(ls, ms, a, b, g, %s)])
''' % (_e, _e), lambda h: coeffs(h), "zdi_magnetogram:ZdiMagnetogram.energy", prop="Z05")

# ------------------------------------------------------------------ Z06
ob("Z06_matrix", EN + '''
def impl(ls, ms, a, b, g):
    return zm.ZdiMagnetogram(ls, ms, a, b, g).energy_matrix()
def spec(ls, ms, a, b, g):
    x, y, z = energies(ls, ms, a, b, g)
    L = max([l for l in ls])
    er, ep, et = np.zeros((L + 1, 2 * L + 1)), np.zeros((L + 1, 2 * L + 1)), np.zeros((L + 1, 2 * L + 1))
    for i in range(len(ls)):
        er[ls[i], ms[i] + L] = x[i]
        ep[ls[i], ms[i] + L] = x[i] + y[i]
        et[ls[i], ms[i] + L] = z[i]
    return er, ep, et
''', lambda h: coeffs(h), "zdi_magnetogram:ZdiMagnetogram.energy_matrix", prop="Z06")

# ------------------------------------------------------------------ Z07
FC = CO + ZD + '''
def entries(z):
    return {(z.degrees_l[i], z.orders_m[i]): np.array([z.alpha[i], z.beta[i], z.gamma[i], z.c_lm[i]]) for i in range(len(z.degrees_l))}
'''
for _w in (1, 2, 3):
    ob("Z07_entries%d" % _w, FC + '''
def impl(ia, w):
    z = zm.from_coefficients(build(ia, w))
    return entries(z), z.degrees_l.shape, z.orders_m.shape, z.alpha.shape, z.beta.shape, z.gamma.shape
def spec(ia, w):
    n = len(ia)
    if n == 0: raise ValueError
    return ({(l, m): np.array([v[j] if j < w else 0j for j in range(3)] + [norm(l, m)]) for (l, m), v in ia.items()},
            (n,), (n,), (n,), (n,), (n,))
''', (lambda w: lambda h: [h.cmap("A%d" % w, const(w)), I_(w)])(_w), "zdi_magnetogram:from_coefficients", prop="Z07")
    ob("Z07_source%d" % _w, FC + '''
def impl(ia, w):
    a = build(ia, w)
    z = zm.from_coefficients(a)
    return obs(a), vc_shares(z, a)
def spec(ia, w):
    if len(ia) == 0: raise ValueError
    return {k: v for k, v in ia.items()}, False
''', (lambda w: lambda h: [h.cmap("A%d" % w, const(w)), I_(w)])(_w), "zdi_magnetogram:from_coefficients", prop="C01")
ob("Z07_too_many", FC + '''
def impl(ia, w):
    zm.from_coefficients(build(ia, w))
def spec(ia, w):
    raise AssertionError
''', lambda h: [h.cmap("A4w", const(4)), I_(4)], "zdi_magnetogram:from_coefficients", prop="Z07")
ob("Z07_default_parts", ZD + '''
def impl(ls, ms, a, b, g):
    y, z = zm.ZdiMagnetogram(ls, ms, a), zm.ZdiMagnetogram(ls, ms, a, gamma_lm=g)
    return [y.alpha, y.beta, y.gamma, z.alpha, z.beta, z.gamma, y.degrees_l, y.orders_m]
def spec(ls, ms, a, b, g):
    o = np.zeros(len(ls), dtype=complex)
    return [a, o, o, a, o, g, ls, ms]
''', lambda h: coeffs(h), "zdi_magnetogram:ZdiMagnetogram.__init__", prop="Z07")
ob("Z07_scalar_parts", ZD + '''
def impl(l, m, a, b, g):
    z = zm.ZdiMagnetogram(l, m, a, b, g)
    return [z.degrees_l, z.orders_m, z.alpha, z.beta, z.gamma, z.c_lm]
def spec(l, m, a, b, g):
    return [np.array([x]) for x in (l, m, a, b, g, norm(l, m))]
''', lambda h: [h.int("sl", dist=choices(2, 3)), h.int("sm", dist=choices(-2, -1, 0, 1, 2)), h.cplx("sa"), h.cplx("sb"), h.cplx("sg")],
   "zdi_magnetogram:ZdiMagnetogram.__init__", prop="Z07")
ob("Z07_norm", ZD + '''
def impl(ls, ms):
    return zm.get_c_lm(ls, ms)
def spec(ls, ms):
    return np.array([norm(ls[i], ms[i]) for i in range(len(ls))])
''', lambda h: coeffs(h)[:2], "zdi_magnetogram:get_c_lm", prop="Z07")
ob("Z07_norm_alternative", ZD + '''
def impl(ls, ms):
    return zm.get_c_lm(ls, ms, method="high_order")
def spec(ls, ms):
    return np.array([norm(ls[i], ms[i]) for i in range(len(ls))])
''', lambda h: coeffs(h, negative=False)[:2], "zdi_magnetogram:get_c_lm", prop="Z07", n=16)
ob("Z07_norm_lists", ZD + '''
def impl(l, m, k, n):
    return zm.get_c_lm([l, k], [m, n]), zm.get_c_lm(l, m)
def spec(l, m, k, n):
    return np.array([norm(l, m), norm(k, n)]), norm(l, m)
''', lambda h: [h.int("sl", dist=choices(2, 3)), h.int("sm", dist=choices(-2, -1, 0, 1, 2)), h.int("sk", dist=choices(2, 3)), h.int("sn", dist=choices(-2, -1, 0, 1, 2))],
   "zdi_magnetogram:get_c_lm", prop="Z07")

# ------------------------------------------------------------------ V04
PJ = CO + ZD + '''
from starwinds_magnetogram import converter as cv
def project(ls, ms, pl, az, fr, fp, fa, area):
    alpha, beta, gamma = [], [], []
    for k in range(len(ls)):
        l, m = ls[k], ms[k]
        A = 0j
        B = 0j
        G = 0j
        for i in range(pl.shape[0]):
            for j in range(pl.shape[1]):
                t, p = pl[i, j], az[i, j]
                e = cmath.exp(-1j * m * p)
                A += fr[i, j] * P(l, m, t) * math.sin(t) * e
                B += (1j * m * P(l, m, t) * fa[i, j] - dP(l, m, t) * math.sin(t) * fp[i, j]) * e
                G += (-1j * m * P(l, m, t) * fp[i, j] - dP(l, m, t) * math.sin(t) * fa[i, j]) * e
        w = norm(l, m) * (1 if m == 0 else 2) * area
        alpha.append(A * w)
        beta.append(B * w / max(l, 1))
        gamma.append(G * w / max(l, 1))
    return {(ls[k], ms[k]): np.array([alpha[k], beta[k], gamma[k]]) for k in range(len(ls))}
def cell(pl, az):
    # mean spacing of the polar angles along the second axis, of the azimuths along the first
    x = 0.0
    y = 0.0
    for i in range(pl.shape[0]):
        for j in range(pl.shape[1] - 1):
            x += pl[i, j + 1] - pl[i, j]
    for i in range(pl.shape[0] - 1):
        for j in range(pl.shape[1]):
            y += az[i + 1, j] - az[i, j]
    return x / (pl.shape[0] * (pl.shape[1] - 1)) * (y / ((pl.shape[0] - 1) * pl.shape[1]))
def lm(top):
    return [(l, m) for l in range(0, top + 1) for m in range(0, l + 1)]
'''


def maps(h):
    d = [h.size("P0", 2, 3), h.size("P1", 2, 3)]
    return [h.arr("zt2", d, "f", lo=0.2, hi=2.9), h.arr("zp2", d, "f", lo=-3.0, hi=6.0)] + [h.arr(x, d, "f") for x in ("fr", "ft", "fp")]


ob("V04_area", PJ + '''
def impl(pl, az, fr, fp, fa, area, top):
    return obs(cv.convert_latlon_to_zdi_coeffs(pl, az, fr, fp, fa, area, top))
def spec(pl, az, fr, fp, fa, area, top):
    ls, ms = [k[0] for k in lm(top)], [k[1] for k in lm(top)]
    return project(ls, ms, pl, az, fr, fp, fa, area)
''', lambda h: maps(h) + [h.real("area", 0.01, 1.0), h.int("top", 0, dist=choices(1, 2, 3))], "converter:convert_latlon_to_zdi_coeffs", prop="V04")
ob("V04_noarea", PJ + '''
def impl(pl, az, fr, fp, fa, top):
    return obs(cv.convert_latlon_to_zdi_coeffs(pl, az, fr, fp, fa, max_degree=top))
def spec(pl, az, fr, fp, fa, top):
    ls, ms = [k[0] for k in lm(top)], [k[1] for k in lm(top)]
    return project(ls, ms, pl, az, fr, fp, fa, cell(pl, az))
''', lambda h: maps(h) + [h.int("top", 0, dist=choices(1, 2, 3))], "converter:convert_latlon_to_zdi_coeffs", prop="V04")
ob("V04_default_degree", PJ + '''
def impl(pl, az, fr, fp, fa):
    c = cv.convert_latlon_to_zdi_coeffs(pl, az, fr, fp, fa)
    return obs(c), c.degree_max, obs(cv.convert_latlon_to_zdi_coeffs(pl, az, fr, fp, fa, None, 4)), cv.convert_latlon_to_zdi(pl, az, fr, fp, fa).degree()
def spec(pl, az, fr, fp, fa):
    return obs(cv.convert_latlon_to_zdi_coeffs(pl, az, fr, fp, fa, max_degree=5)), 5, obs(cv.convert_latlon_to_zdi_coeffs(pl, az, fr, fp, fa, max_degree=4)), 5
''', maps, "converter:convert_latlon_to_zdi_coeffs", prop="V04")
ob("V04_listed", PJ + '''
def impl(pl, az, fr, fp, fa, l, m, k, n, area):
    if l == k and m == n: raise AssertionError
    return obs(cv.get_zdi_coeffs(pl, az, [l, k], [m, n], fr, fp, fa, area))
def spec(pl, az, fr, fp, fa, l, m, k, n, area):
    if l == k and m == n: raise AssertionError
    return project([l, k], [m, n], pl, az, fr, fp, fa, area)
''', lambda h: maps(h) + [h.int("sl", dist=choices(2, 3)), h.int("sm", dist=choices(0, 1, 2)), h.int("sk", dist=choices(2, 3)), h.int("sn", dist=choices(0, 1, 2)), h.real("area", 0.01, 1.0)],
   "converter:get_zdi_coeffs", prop="V04")
ob("V04_magnetogram", PJ + '''
def impl(pl, az, fr, fp, fa, area, top):
    z = cv.convert_latlon_to_zdi(pl, az, fr, fp, fa, area, top)
    return {(z.degrees_l[i], z.orders_m[i]): np.array([z.alpha[i], z.beta[i], z.gamma[i]]) for i in range(len(z.degrees_l))}
def spec(pl, az, fr, fp, fa, area, top):
    ls, ms = [k[0] for k in lm(top)], [k[1] for k in lm(top)]
    return project(ls, ms, pl, az, fr, fp, fa, area)
''', lambda h: maps(h) + [h.real("area", 0.01, 1.0), h.int("top", 0, dist=choices(1, 2, 3))], "converter:convert_latlon_to_zdi", prop="V04")
ob("V04_inputs", PJ + '''
def impl(pl, az, fr, fp, fa, l, m, area):
    ls, ms = np.array([l, l + 1]), np.array([m, m + 1])
    cv.get_zdi_coeffs(pl, az, ls, ms, fr, fp, fa, area)
    return ls, ms, pl, az, fr, fp, fa
def spec(pl, az, fr, fp, fa, l, m, area):
    return np.array([l, l + 1]), np.array([m, m + 1]), pl, az, fr, fp, fa
''', lambda h: maps(h) + [h.int("sl0", 0, dist=choices(0, 2)), h.int("sm0", 0, dist=choices(0, 1)), h.real("area", 0.01, 1.0)], "converter:get_zdi_coeffs", prop="N01")
