"""Conversions and rotation: V01-V03, Q01, and C05/C06."""
from ..oblig import *
from .coeffs import CO, two, one

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


CV = CO + '''
from starwinds_magnetogram import converter as cv
def factor(l, m):
    return math.sqrt(2 * l + 1) / ((-1) ** abs(m) * math.sqrt(4 * math.pi) * math.sqrt(1 if m == 0 else 2))
def surface_r(l):
    # R_l at r = r* = 1 with source surface 3
    a = (1.0 / 3.0) ** (2 * l + 1)
    return (1 - a) / (l + 1 + l * a)
'''


def onec(w, name="A"):
    return lambda h: [h.cmap("%s%d" % (name, w), const(w)), I_(w)]


ob("V01_forward", CV + '''
def impl(ia, w): return obs(cv.convert_zdi_to_pfss(build(ia, w)))
def spec(ia, w): return {(l, m): v * factor(l, m) for (l, m), v in ia.items()}
''', onec(1), "converter:convert_zdi_to_pfss", prop="V01")
ob("V01_forward3", CV + '''
def impl(ia, w): return obs(cv.convert_zdi_to_pfss(build(ia, w)))
def spec(ia, w): return {(l, m): v * factor(l, m) for (l, m), v in ia.items()}
''', onec(3), "converter:convert_zdi_to_pfss", prop="V01")
ob("V01_factor", CV + '''
def impl(l, m): return cv.forward_conversion_factor(l, m)
def spec(l, m): return factor(l, m)
''', lambda h: [h.int("l", 0, 30), h.int("m", -30, 30)], "converter:forward_conversion_factor", prop="V01")
ob("V01_factor_arrays", CV + '''
def impl(l, m): return cv.forward_conversion_factor(l, m)
def spec(l, m): return np.array([factor(l[i], m[i]) for i in range(len(l))])
''', lambda h: (lambda n: [h.arr("la", [n], "i", dist=irange(0, 9)), h.arr("ma", [n], "i", dist=irange(-9, 9))])(h.size("N")),
   "converter:forward_conversion_factor", prop="V01")
ob("V01_inverse", CV + '''
def impl(ia, w): return {k: v[0] for k, v in obs(cv.convert_pfss_to_zdi(build(ia, w))).items()}
def spec(ia, w): return {(l, m): v[0] / factor(l, m) for (l, m), v in ia.items()}
''', onec(1), "converter:convert_pfss_to_zdi", prop="V01")
ob("V01_roundtrip", CV + '''
def impl(ia, w):
    a = build(ia, w)
    z = cv.convert_pfss_to_zdi(cv.convert_zdi_to_pfss(a))
    r = sc.hsplit(z)[0]
    p = cv.convert_zdi_to_pfss(sc.hsplit(cv.convert_pfss_to_zdi(a))[0])
    return obs(r), obs(p), obs(a)
def spec(ia, w):
    d = {k: v for k, v in ia.items()}
    return d, dict(d), dict(d)
''', onec(1), ["converter:convert_pfss_to_zdi", "converter:convert_zdi_to_pfss"], prop="V01")
ob("V01_source", CV + '''
def impl(ia, w):
    a = build(ia, w)
    r = cv.convert_zdi_to_pfss(a)
    s = cv.convert_pfss_to_zdi(a)
    return obs(a), vc_shares(r, a), vc_shares(s, a), a.size, a.degree_max
def spec(ia, w):
    a = build(ia, w)
    return {k: v for k, v in ia.items()}, False, False, a.size, a.degree_max
''', onec(1), ["converter:convert_pfss_to_zdi", "converter:convert_zdi_to_pfss"], prop="C01")
ob("V02_components", CV + '''
def impl(ia, w):
    z = cv.convert_pfss_to_zdi(build(ia, w))
    return obs(z), z.default_coefficients
def spec(ia, w):
    d = {}
    for (l, m), v in ia.items():
        a = v[0] / factor(l, m)
        d[(l, m)] = np.array([a, a * (l + 1) * surface_r(l), 0j])
    return d, np.zeros(3, dtype=complex)
''', onec(1), "converter:convert_pfss_to_zdi", prop="V02")
FOLD = CV + '''
def folded(ia):
    top = 0
    for (l, m) in ia:
        top = max(top, l)
    d = {}
    for l in range(top + 1):
        for m in range(l + 1):
            p = ia[(l, m)][0] if (l, m) in ia else 0j
            n = ia[(l, -m)][0] if (l, -m) in ia else 0j
            if m == 0:
                d[(l, m)] = np.array([p])
            else:
                d[(l, m)] = np.array([p + (-1) ** m * n.conjugate()])
    return d
'''
ob("V03_fold", FOLD + '''
def impl(ia, w):
    a = build(ia, w)
    r = cv.map_to_positive_orders(a)
    return obs(r), r.order_min, r.degree_max == a.degree_max
def spec(ia, w):
    return folded(ia), 0, True
''', onec(1), "converter:map_to_positive_orders", prop="V03")
ob("V03_wide", FOLD + '''
def impl(ia, w): return obs(cv.map_to_positive_orders(build(ia, w)))
def spec(ia, w):
    top = 0
    for (l, m) in ia:
        top = max(top, l)
    if top >= 1: raise AssertionError
    return {(0, 0): ia[(0, 0)] if (0, 0) in ia else np.zeros(w, dtype=complex)}
''', onec(2), "converter:map_to_positive_orders", prop="V03")
ob("V03_source", FOLD + '''
def impl(ia, w):
    a = build(ia, w)
    r = cv.map_to_positive_orders(a)
    return obs(a), vc_shares(r, a), a.default_coefficients
def spec(ia, w):
    return {k: v for k, v in ia.items()}, False, np.zeros(w, dtype=complex)
''', onec(1), "converter:map_to_positive_orders", prop="C01")

# ------------------------------------------------------------------ Q01
RO = CO + '''
from starwinds_magnetogram import rotate
import spherical_functions
import quaternion
def rotated(ia, w, R):
    top = 0
    for (l, m) in ia:
        top = max(top, l)
    d = {}
    for l in range(top + 1):
        for mo in range(-l, l + 1):
            v = np.zeros(w, dtype=complex)
            for mi in range(-l, l + 1):
                if (l, mi) in ia:
                    v = v + spherical_functions.Wigner_D_element(R, l, mi, mo) * ia[(l, mi)]
            d[(l, mo)] = v
    return d
'''
for _w in (1, 3):
    ob("Q01_rotate%d" % _w, RO + '''
def impl(ia, w, e):
    R = quaternion.from_euler_angles(e)
    a = build(ia, w)
    r = rotate.rotate_magnetogram(a, R)
    return obs(r), r.default_coefficients
def spec(ia, w, e):
    return rotated(ia, w, quaternion.from_euler_angles(e)), np.zeros(w, dtype=complex)
''', (lambda w: lambda h: onec(w)(h) + [h.arr("eul", [const(3)])])(_w), "rotate:rotate_magnetogram", prop="Q01", n=16)
    ob("Q01_source%d" % _w, RO + '''
def impl(ia, w, e):
    a = build(ia, w)
    r = rotate.rotate_magnetogram(a, quaternion.from_euler_angles(e))
    return obs(a), vc_shares(r, a), a.default_coefficients, a.get(40, 41) * 1
def spec(ia, w, e):
    return {k: v for k, v in ia.items()}, False, np.zeros(w, dtype=complex), np.zeros(w, dtype=complex)
''', (lambda w: lambda h: onec(w)(h) + [h.arr("eul", [const(3)])])(_w), "rotate:rotate_magnetogram", prop="C01", n=16)
ob("Q01_euler", RO + '''
def impl(ia, w, e): return obs(rotate.rotate_magnetogram_euler_zyz_deg(build(ia, w), e)), e
def spec(ia, w, e): return rotated(ia, w, quaternion.from_euler_angles(np.array([e[0] * math.pi / 180, e[1] * math.pi / 180, e[2] * math.pi / 180]))), e
''', lambda h: onec(1)(h) + [h.arr("eul", [const(3)])], "rotate:rotate_magnetogram_euler_zyz_deg", prop="Q01", n=16)
ob("Q01_euler_tuple", RO + '''
def impl(ia, w, a, b, c): return obs(rotate.rotate_magnetogram_euler_zyz_deg(build(ia, w), (a, b, c)))
def spec(ia, w, a, b, c): return rotated(ia, w, quaternion.from_euler_angles(np.array([a * math.pi / 180, b * math.pi / 180, c * math.pi / 180])))
''', lambda h: onec(1)(h) + [h.real("ea"), h.int("eb", -180, 180), h.real("ec")], "rotate:rotate_magnetogram_euler_zyz_deg", prop="Q01", n=16)

# ------------------------------------------------------------------ C05
CL = CO + '''
def near(x, y, rtol, atol):
    return abs(x - y) <= atol + rtol * abs(y)
def closeness(ia, ib, w, rtol, atol):
    z = np.zeros(w, dtype=complex)
    ok = True
    for k in ia:
        for j in range(w):
            ok = ok and near(ia[k][j], ib[k][j] if k in ib else 0j, rtol, atol)
    for k in ib:
        if k not in ia:
            for j in range(w):
                ok = ok and near(0j, ib[k][j], rtol, atol)
    return ok
def table(ia, ib, w, rtol, atol):
    d = {}
    for k in ia:
        d[k] = np.array([near(ia[k][j], ib[k][j] if k in ib else 0j, rtol, atol) for j in range(w)])
    for k in ib:
        if k not in ia:
            d[k] = np.array([near(0j, ib[k][j], rtol, atol) for j in range(w)])
    return d
'''


def closepair(w, tol=True):
    """second set mostly equal to the first up to a small perturbation"""
    def f(h):
        l, m, d = fresh("i", name="l"), fresh("i", name="m"), Dom.range(ZERO, const(w))
        a = h.cmap("P%d" % w, const(w))
        if "Pd%d" % w not in SIGS:
            declare("Pd%d" % w, "c", dist=lambda r, idx, I: r.choice((0j, 0j, 0j, 1e-9 + 0j, 3e-6j, 2e-4 + 1e-4j, 0.5 + 0j)) if I.rng("mode").random() < .8 else 0j)
            declare("Px%d" % w, "b", dist=lambda r, idx, I: r.random() < I.rng("modex").choice((0.0, 0.0, 0.05)))
            declare("Ps%d" % w, "r", dist=lambda r, idx, I: r.choice((0., 1e-9, 1.)) if I.rng("mode2").random() < .4 else 1.)
        sc = atom("Ps%d" % w, l, m)
        has = and_(or_(atom("P%d.has" % w, l, m), atom("Px%d" % w, l, m)), le(m, l), le(neg(m), l))
        b = h.I.new(h.st, MapC(l, m, has, AV(ArrC((d,), add(atom("P%d.val" % w, l, m, d.vars[0]), atom("Pd%d" % w, l, m, d.vars[0])), "c"))))
        out = [a, b, I_(w)]
        if tol:
            out += [h.real("rtol", 0, 1e-3, dist=choices(0.0, 1e-6, 1e-5, 1e-3)), h.real("atol", 0, 1e-3, dist=choices(0.0, 1e-8, 1e-5, 1e-3))]
        return out
    return f


from ..terms import *
ob("C05_tol", CL + '''
def impl(ia, ib, w, rtol, atol):
    return bool(sc.allclose(build(ia, w), build(ib, w), rtol=rtol, atol=atol)), obs(sc.isclose(build(ia, w), build(ib, w), rtol=rtol, atol=atol))
def spec(ia, ib, w, rtol, atol):
    return closeness(ia, ib, w, rtol, atol), table(ia, ib, w, rtol, atol)
''', closepair(2), ["coefficients:allclose", "coefficients:isclose"], prop="C05", n=150)
ob("C05_default", CL + '''
def impl(ia, ib, w):
    return bool(sc.allclose(build(ia, w), build(ib, w))), obs(sc.isclose(build(ia, w), build(ib, w)))
def spec(ia, ib, w):
    return closeness(ia, ib, w, 1e-5, 1e-8), table(ia, ib, w, 1e-5, 1e-8)
''', closepair(1, False), ["coefficients:allclose", "coefficients:isclose"], prop="C05", n=150)
ob("C05_unrelated", CL + '''
def impl(ia, ib, w):
    return bool(sc.allclose(build(ia, w), build(ib, w), rtol=0.5)), bool(sc.allclose(build(ia, w), build(ib, w), atol=1.5))
def spec(ia, ib, w):
    return closeness(ia, ib, w, 0.5, 1e-8), closeness(ia, ib, w, 1e-5, 1.5)
''', lambda h: [h.cmap("A1", const(1)), h.cmap("B1", const(1)), I_(1)], "coefficients:allclose", prop="C05", n=150)
ob("C05_shape", CL + '''
def impl(ia, ib, v, w):
    return bool(sc.allclose(build(ia, v), build(ib, w))), bool(sc.allclose(sc.Coefficients(), sc.Coefficients()))
def spec(ia, ib, v, w):
    return False, True
''', lambda h: [h.cmap("A1", const(1)), h.cmap("B3", const(3)), I_(1), I_(3)], "coefficients:allclose", prop="C05")

# ------------------------------------------------------------------ C06
for _v, _call, _lo, _hi, _b in (("full", "sc.noise(lo, hi, fn, b)", "lo", "hi", "b"), ("nobeta", "sc.noise(degree_min=lo, degree_max=hi, noise_fn=fn)", "lo", "hi", "0"),
                                ("nomin", "sc.noise(degree_max=hi, noise_fn=fn, beta=b)", "1", "hi", "b"), ("nomax", "sc.noise(lo, noise_fn=fn)", "lo", "15", "0")):
    ob("C06_" + _v, CO + '''
def impl(lo, hi, b, f):
    def fn(size=None):
        return np.array([f(0), f(1)])
    return obs(%s)
def spec(lo, hi, b, f):
    d = {}
    for l in range(%s, %s + 1):
        for m in range(0, l + 1):
            d[(l, m)] = np.array([(f(0) + 1j * f(1)) / (2 * l + 1) / l ** %s])
    return d
''' % (_call, _lo, _hi, _b), lambda h: [h.int("lo", 1, 3), h.int("hi", 1, 4), h.real("b", -1, 2), h.ufn("f")], "coefficients:noise", prop="C06", n=20)
ob("C06_draws", CO + '''
def impl(lo, hi):
    calls = []
    def fn(size=None):
        calls.append(size)
        return np.array([1.0, 2.0])
    sc.noise(lo, hi, fn)
    n = 0
    ok = True
    for c in calls:
        n += 1
        ok = ok and c == 2
    return n, ok
def spec(lo, hi):
    n = 0
    for l in range(lo, hi + 1):
        for m in range(0, l + 1):
            n += 1
    return n, True
''', lambda h: [h.int("lo", 1, 3), h.int("hi", 1, 4)], "coefficients:noise", prop="C06", n=20)
