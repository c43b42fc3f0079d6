"""Coefficient container: C02-C05."""
from ..oblig import *

CO = '''
from starwinds_magnetogram import coefficients as sc

def build(items, w):
    c = sc.Coefficients(np.zeros(w, dtype=complex))
    for (l, m), v in items.items():
        c.append(l, m, v)
    return c

def obs(c):
    d = {}
    for (l, m), v in c.contents():
        d[(l, m)] = v
    return d

def union(a, b, w, f):
    d = {}
    z = np.zeros(w, dtype=complex)
    for k in a:
        d[k] = f(a[k], b[k] if k in b else z)
    for k in b:
        if k not in a:
            d[k] = f(z, b[k])
    return d
'''


def two(h):
    w = h.size("W")
    return [h.cmap("A", w), h.cmap("B", w), S(w, "i")]


def one(h):
    w = h.size("W")
    return [h.cmap("A", w), S(w, "i")]


def one_x(h):
    return one(h) + [h.cplx("x")]


def one_n(h):
    return one(h) + [h.int("n", -1, 8)]


OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


ob("C02_add", CO + '''
def impl(ia, ib, w): return obs(build(ia, w) + build(ib, w))
def spec(ia, ib, w): return union(ia, ib, w, lambda x, y: x + y)
''', two, "coefficients:add", prop="C02")
ob("C02_addf", CO + '''
def impl(ia, ib, w): return obs(sc.add(build(ia, w), build(ib, w)))
def spec(ia, ib, w): return union(ia, ib, w, lambda x, y: x + y)
''', two, "coefficients:add", prop="C02")
ob("C02_sub", CO + '''
def impl(ia, ib, w): return obs(build(ia, w) - build(ib, w))
def spec(ia, ib, w): return union(ia, ib, w, lambda x, y: x - y)
''', two, "coefficients:Coefficients", prop="C02")
ob("C02_mulset", CO + '''
def impl(ia, ib, w): return obs(build(ia, w) * build(ib, w))
def spec(ia, ib, w): return union(ia, ib, w, lambda x, y: x * y)
''', two, "coefficients:multiply", prop="C02")
ob("C02_mulnum", CO + '''
def impl(ia, w, x): return obs(build(ia, w) * x)
def spec(ia, w, x): return {k: v * x for k, v in ia.items()}
''', one_x, "coefficients:multiply", prop="C02")
ob("C02_rmulnum", CO + '''
def impl(ia, w, x): return obs(x * build(ia, w))
def spec(ia, w, x): return {k: v * x for k, v in ia.items()}
''', one_x, "coefficients:multiply", prop="C02")
ob("C02_divnum", CO + '''
def impl(ia, w, x): return obs(build(ia, w) / x)
def spec(ia, w, x): return {k: v / x for k, v in ia.items()}
''', one_x, "coefficients:Coefficients.__truediv__", prop="C02")
ob("C02_pow", CO + '''
def impl(ia, w, n): return obs(build(ia, w) ** n)
def spec(ia, w, n): return {k: v ** n for k, v in ia.items()}
''', one_n, "coefficients:Coefficients.__pow__", prop="C02")
ob("C02_scale", CO + '''
def impl(ia, w, f, p): return obs(build(ia, w).scale(f, p)), obs(sc.scale(build(ia, w), f)), obs(build(ia, w).scale(f))
def spec(ia, w, f, p):
    d = {(l, m): v * f(l, m) for (l, m), v in ia.items()}
    return {(l, m): v * f(l, m) ** p for (l, m), v in ia.items()}, d, dict(d)
''', lambda h: one(h) + [h.ufn("f"), h.int("p", -2, 3)], "coefficients:scale", prop="C02")
for _n, _e in (("add", "build(ia, 2) + build(ib, w)"), ("add2", "build(ia, w) + build(ib, 2)"), ("sub", "build(ia, w) - build(ib, 2)"),
               ("mul", "build(ia, 2) * build(ib, w)"), ("mul2", "build(ia, w) * build(ib, 2)")):
    for _w in (1, 3):
        ob("C02_widths_%s_%d" % (_n, _w), CO + '''
def impl(ia, ib, w): return obs(%s)
def spec(ia, ib, w): raise AssertionError
''' % _e, (lambda n, w: lambda h: [h.cmap("A%dw" % a, const(a)) for a in ((2, w) if n in ("add", "mul") else (w, 2))] + [S(const(w), "i")])(_n, _w),
           "coefficients:" + {"add": "add", "sub": "Coefficients", "mul": "multiply"}[_n[:3]], prop=["C02", "N04"])
ob("C02_trunc", CO + '''
def impl(ia, w, n): return obs(build(ia, w).truncated(n)), obs(sc.truncated(build(ia, w), n))
def spec(ia, w, n):
    d = {(l, m): v for (l, m), v in ia.items() if l <= n}
    return d, dict(d)
''', one_n, "coefficients:truncated", prop="C02")
ob("C02_copy", CO + '''
def impl(ia, w):
    z = sc.zeros_like(build(ia, w))
    e = sc.empty_like(build(ia, w))
    return obs(build(ia, w).copy()), obs(sc.copy(build(ia, w))), obs(z), obs(e), e.default_coefficients, z.default_coefficients
def spec(ia, w):
    d = {k: v for k, v in ia.items()}
    return d, dict(d), {k: v * 0 for k, v in ia.items()}, {}, np.zeros(w, dtype=complex), np.zeros(w, dtype=complex)
''', one, "coefficients:copy", prop="C02")
ob("C02_hstack", CO + '''
def impl(ia, ib, w):
    h = sc.hstack((build(ia, w), build(ib, w)))
    return obs(h), h.default_coefficients
def spec(ia, ib, w):
    z = np.zeros(w, dtype=complex)
    d = {}
    for k in ia:
        d[k] = np.concatenate((ia[k], ib[k] if k in ib else z))
    for k in ib:
        if k not in ia:
            d[k] = np.concatenate((z, ib[k]))
    return d, np.concatenate((z, z))
''', two, "coefficients:hstack", prop="C02")
for _w, _sec in ((3, "None"), (4, "2"), (3, "[1]")):
    _cuts = {"None": [0, 1, 2, 3], "2": [0, 2, 4], "[1]": [0, 1, 3]}[_sec]
    ob("C02_hsplit%d" % len(_cuts) + _sec.strip("[]"), CO + '''
def impl(ia, w):
    return [(obs(p), p.default_coefficients) for p in sc.hsplit(build(ia, w)%s)], [obs(p) for p in build(ia, w).hsplit(%s)]
def spec(ia, w):
    z = np.zeros(w, dtype=complex)
    r = []
    r2 = []
    for lo, hi in %r:
        r.append(({k: v[lo:hi] for k, v in ia.items()}, z[lo:hi]))
        r2.append({k: v[lo:hi] for k, v in ia.items()})
    return r, r2
''' % ("" if _sec == "None" else ", " + _sec, "" if _sec == "None" else _sec, list(zip(_cuts[:-1], _cuts[1:]))),
       (lambda w: lambda h: [h.cmap("A%d" % w, const(w)), I_(w)])(_w), "coefficients:hsplit", prop="C02")


# ------------------------------------------------------------------ C01
SHARE = CO + '''
def outcome(f):
    try:
        f()
        return True
    except Exception:
        return False
'''
INDEP = [
    ("add", "sc.add(a, b)", "coefficients:add"), ("addop", "a + b", "coefficients:Coefficients.__add__"),
    ("subop", "a - b", "coefficients:Coefficients.__sub__"), ("mulset", "a * b", "coefficients:multiply"),
    ("mulnum", "a * 2.0", "coefficients:multiply"), ("mulone", "a * 1", "coefficients:multiply"), ("rmul", "3 * a", "coefficients:multiply"),
    ("div", "a / 2.0", "coefficients:Coefficients.__truediv__"), ("pow", "a ** 2", "coefficients:Coefficients.__pow__"),
    ("scale", "a.scale(lambda l, m: l + 2)", "coefficients:scale"), ("trunc", "a.truncated(3)", "coefficients:truncated"),
    ("copy", "a.copy()", "coefficients:copy"), ("zeros", "sc.zeros_like(a)", "coefficients:zeros_like"),
    ("empty", "sc.empty_like(a)", "coefficients:empty_like"), ("hstack", "sc.hstack((a, b))", "coefficients:hstack"),
    ("hsplit", "sc.hsplit(a, 2)", "coefficients:hsplit"), ("isclose", "sc.isclose(a, b)", "coefficients:isclose"),
    ("arrays", "a.as_arrays(include_unset=False)", "coefficients:Coefficients.as_arrays"),
    ("full", "a.as_arrays()", "coefficients:Coefficients.as_arrays"),
    ("default", "a.default_coefficients", "coefficients:Coefficients.default_coefficients"),
]
for _n, _e, _anc in INDEP:
    _nonempty = _n == "isclose"
    ob("C01_" + _n, SHARE + '''
def impl(ia, ib, w):
    a, b = build(ia, w), build(ib, w)
    r = %s
    return vc_shares(r, a), vc_shares(r, b), obs(a), obs(b), a.degree_max, b.degree_max, a.order_min, b.order_min, a.size, b.size, a.default_coefficients
def spec(ia, ib, w):
    a, b = build(ia, w), build(ib, w)
    return False, False, dict(ia), dict(ib), a.degree_max, b.degree_max, a.order_min, b.order_min, a.size, b.size, np.zeros(w, dtype=complex)
''' % _e, lambda h: [h.cmap("A2w", const(2)), h.cmap("B2w", const(2)), I_(2)], _anc, prop="C01", aborts=not _nonempty)
ob("C01_supplied", CO + '''
def impl(w, x, d, y):
    c = sc.Coefficients(d)
    c.append(1, 0, x)
    c.set(2, 1, y)
    f = sc.from_arrays(np.array([1, 2]), np.array([0, 1]), np.stack((x, y)))
    return vc_shares(c, x), vc_shares(c, d), vc_shares(c, y), vc_shares(f, x), vc_shares(f, y), d, x, y
def spec(w, x, d, y):
    return False, False, False, False, False, d, x, y
''', lambda h: (lambda w: [S(w, "i"), h.arr("xa", [w], "c"), h.arr("da", [w], "c"), h.arr("ya", [w], "c")])(h.size("W")),
   "coefficients:Coefficients", prop="C01")
ob("C01_from_arrays", CO + '''
def impl(l, m, x):
    f = sc.from_arrays(l, m, x)
    return vc_shares(f, x), vc_shares(f, l), vc_shares(f, m)
def spec(l, m, x):
    return False, False, False
''', lambda h: (lambda n, w: [h.arr("lv", [n], "i"), h.arr("mv", [n], "i"), h.arr("xv", [n, w], "c")])(h.size("N"), h.size("W")),
   "coefficients:from_arrays", prop="C01")


# ------------------------------------------------------------------ C03
def store_args(h):
    w = h.size("W")
    d = h.size("D")
    l, m = h.int("l", dist=choices(-1, 0, 1, 2, 3, 4, 4)), h.int("m", dist=choices(-5, -4, -3, -2, -1, -1, 0, 0, 1, 1, 2, 3, 4))
    return [h.cmap("A", w), S(w, "i"), l, m, h.arr("data", [d], "c")]


STORE = CO + '''
def state(c):
    return obs(c), c.degree_max, c.order_min, c.size, c.has(2, 1), c.get(2, 1) * 1
def expect(d, w):
    lmax = 0
    mmin = 0
    n = 0
    for (l, m) in d:
        lmax = max(lmax, l)
        mmin = min(mmin, m)
        n += 1
    return d, lmax, mmin, n, (2, 1) in d, d[(2, 1)] if (2, 1) in d else np.zeros(w, dtype=complex)
'''
ob("C03_append", STORE + '''
def impl(ia, w, l, m, data):
    c = build(ia, w)
    c.append(l, m, data)
    return state(c)
def spec(ia, w, l, m, data):
    d = {k: v for k, v in ia.items()}
    if (l, m) in d: raise IndexError
    if abs(m) > l: raise AssertionError
    if len(data) != w: raise AssertionError
    d[(l, m)] = data
    return expect(d, w)
''', store_args, "coefficients:Coefficients.append", prop="C03")
ob("C03_set", STORE + '''
def impl(ia, w, l, m, data):
    c = build(ia, w)
    c.set(l, m, data)
    return state(c)
def spec(ia, w, l, m, data):
    d = {k: v for k, v in ia.items()}
    if abs(m) > l: raise AssertionError
    if len(data) != w: raise AssertionError
    d[(l, m)] = data
    return expect(d, w)
''', store_args, "coefficients:Coefficients.set", prop="C03")
for _f in ("append", "set"):
    ob("C03_atomic_" + _f, STORE + '''
def impl(ia, w, l, m, data):
    c = build(ia, w)
    try:
        c.%s(l, m, data)
        return "stored"
    except Exception:
        return "failed", state(c)
def spec(ia, w, l, m, data):
    if %sabs(m) > l or len(data) != w:
        return "failed", expect({k: v for k, v in ia.items()}, w)
    return "stored"
''' % (_f, "(l, m) in ia or " if _f == "append" else ""), store_args, "coefficients:Coefficients." + _f, prop="C03")
ob("C03_sequence", STORE + '''
def impl(ia, w, l, m, data):
    c = build(ia, w)
    c.set(l, m, data)
    c.set(l, m, data * 2)
    c.set(l + 1, -m, data * 3)
    return state(c), c.get(l, m) * 1, c.has(l, m), c.get(l + 7, m) * 1
def spec(ia, w, l, m, data):
    d = {k: v for k, v in ia.items()}
    if abs(m) > l: raise AssertionError
    d[(l, m)] = data * 2
    d[(l + 1, -m)] = data * 3
    return expect(d, w), data * 2, True, d[(l + 7, m)] if (l + 7, m) in d else np.zeros(w, dtype=complex)
''', lambda h: (lambda w: [h.cmap("A", w), S(w, "i"), h.int("l3", dist=choices(-1, 0, 1, 2, 3, 3)), h.int("m3", dist=choices(-4, -3, -2, -1, -1, 0, 0, 1, 1, 2, 3)), h.arr("dataw", [w], "c")])(h.size("W")),
   "coefficients:Coefficients.set", prop="C03")
ob("C03_empty", '''
from starwinds_magnetogram import coefficients as sc
def impl(x):
    c = sc.Coefficients()
    e = sc.Coefficients(x)
    c.append(3, -2, 1 + 2j)
    return c.degree_max, c.order_min, c.size, c.get(3, -2) * 1, c.get(1, 0) * 1, e.size, e.degree_max, e.order_min, e.get(5, 5) * 1, list(e.contents())
def spec(x):
    return 3, -2, 1, np.array([1 + 2j]), np.array([0j]), 0, 0, 0, np.array([x]), []
''', lambda h: [h.cplx("x")], "coefficients:Coefficients", prop="C03")

# ------------------------------------------------------------------ C04
ob("C04_export", CO + '''
def impl(ia, w, l0, l1, m0, m1, unset):
    if l1 < l0 or m1 < m0 or m0 > l1 or m1 < -l1: return None    # no index pair to list
    return build(ia, w).as_arrays(unset, l0, l1, m0, m1)
def spec(ia, w, l0, l1, m0, m1, unset):
    if l1 < l0 or m1 < m0 or m0 > l1 or m1 < -l1: return None
    L = []
    M = []
    X = []
    for l in range(l0, l1 + 1):
        for m in range(max(m0, -l), min(m1, l) + 1):
            if unset or (l, m) in ia:
                L.append(l)
                M.append(m)
                X.append(ia[(l, m)] if (l, m) in ia else np.zeros(w, dtype=complex))
    return np.array(L), np.array(M), np.array(X)
''', lambda h: one(h) + [h.int("l0", 0, 3), h.int("l1", 0, 5), h.int("m0", -4, 2), h.int("m1", -2, 4), h.flag("unset")],
   "coefficients:Coefficients.as_arrays", prop="C04")
for _u in ("", "include_unset=True", "include_unset=False"):
    ob("C04_all" + _u.replace("include_unset=", ""), CO + '''
def impl(ia, w):
    return build(ia, w).as_arrays(%s)
def spec(ia, w):
    L = []
    M = []
    X = []
    top = 0
    for (l, m) in ia:
        top = max(top, l)
    for l in range(0, top + 1):
        for m in range(-l, l + 1):
            if %s or (l, m) in ia:
                L.append(l)
                M.append(m)
                X.append(ia[(l, m)] if (l, m) in ia else np.zeros(w, dtype=complex))
    return np.array(L), np.array(M), np.array(X)
''' % (_u, "False" if "False" in _u else "True"), one, "coefficients:Coefficients.as_arrays", prop="C04")
for _kw, _b in (("degree_l_min=2", "l >= 2"), ("degree_l_max=2", "l <= 2"), ("order_m_min=0", "m >= 0"), ("order_m_max=0", "m <= 0"),
                ("degree_l_min=1, order_m_min=0, degree_l_max=3", "m >= 0 and 1 <= l and l <= 3")):
    ob("C04_kw_" + _kw.split(",")[0].replace("=", ""), CO + '''
def impl(ia, w):
    if not any(%s for (l, m) in ia): return None
    return build(ia, w).as_arrays(include_unset=False, %s)
def spec(ia, w):
    if not any(%s for (l, m) in ia): return None
    L = []
    M = []
    X = []
    for (l, m) in sorted(ia):
        if %s:
            L.append(l)
            M.append(m)
            X.append(ia[(l, m)])
    return np.array(L), np.array(M), np.array(X)
''' % (_b, _kw, _b, _b), one, "coefficients:Coefficients.as_arrays", prop="C04")
FA = CO + '''
def expect(l, m, x):
    d = {}
    for i in range(len(l)):
        d[(l[i], m[i])] = x[i]
    return d
'''


def fa_args(rank):
    def f(h):
        n, k = h.size("N"), h.size("K")
        w = h.size("W")
        x = h.arr("xv%d" % rank, [k] + ([w] if rank == 2 else []), "c")
        return [h.arr("lv", [n], "i", dist=irange(0, 4)), h.arr("mv", [n], "i", dist=irange(-2, 3)), x]
    return f


ob("C04_from2", FA + '''
def impl(l, m, x):
    c = sc.from_arrays(l, m, x)
    return obs(c), c.default_coefficients, c.get(40, -2)
def spec(l, m, x):
    if len(l) != len(x): raise IndexError
    for i in range(len(l)):
        if abs(m[i]) > l[i]: raise AssertionError
        for j in range(i):
            if l[i] == l[j] and m[i] == m[j]: raise IndexError
    return expect(l, m, x), np.array([0j for v in x[0]]), np.array([0j for v in x[0]])
''', fa_args(2), "coefficients:from_arrays", prop="C04", n=60)
ob("C04_from1", FA + '''
def impl(l, m, x): return obs(sc.from_arrays(l, m, x))
def spec(l, m, x):
    if len(l) != len(x): raise IndexError
    for i in range(len(l)):
        if abs(m[i]) > l[i]: raise AssertionError
        for j in range(i):
            if l[i] == l[j] and m[i] == m[j]: raise IndexError
    return expect(l, m, [np.array([v]) for v in x])
''', fa_args(1), "coefficients:from_arrays", prop="C04", n=60)
ob("C04_from0", FA + '''
def impl(l, m, x):
    c = sc.from_arrays(l, m, x)
    return obs(c), c.default_coefficients, c.get(7, 0)
def spec(l, m, x): return {(l, m): np.array([x])}, np.array([0j]), np.array([0j])
''', lambda h: [h.int("l", 2, 5), h.int("m", -2, 2), h.cplx("x")], "coefficients:from_arrays", prop="C04")
