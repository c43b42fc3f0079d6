"""Magnetogram files: R01-R03."""
from ..oblig import *
from .coeffs import CO
from ..terms import concat_terms as _cc

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


RW = CO + '''
from starwinds_magnetogram import reader_writer as rw

def data(ia, w, top, mmin):
    parts = []
    for j in range(w):
        for l in range(0, top + 1):
            for m in range(max(mmin, -l), l + 1):
                v = ia[(l, m)][j] if (l, m) in ia else 0j
                parts.append("%3d  %3d  %13e  %13e\\n" % (l, m, v.real, v.imag))
    return "".join(parts)

def highest(ia):
    top = 0
    for (l, m) in ia:
        top = max(top, l)
    return top

def count(top, mmin):
    n = 0
    for l in range(0, top + 1):
        for m in range(max(mmin, -l), l + 1):
            n += 1
    return n

def one_file():
    f = vc_written()
    if len(f) != 1:
        return "several files", ""
    return f[0]
'''


def _set(w):
    def f(h):
        return [h.cmap("A%d" % w, const(w)), I_(w)]
    return f


def _setx(w):
    def f(h):
        return [h.cmap("A%d" % w, const(w)), I_(w), h.int("top", 0, 4), h.int("mmin", -4, 0)]
    return f


for _w in (1, 2, 3):
    ob("R01_default%d" % _w, RW + '''
def impl(ia, w):
    rw.write_magnetogram_file(build(ia, w), "out.dat")
    p, t = one_file()
    return p, t.endswith("\\n" + data(ia, w, highest(ia), 0)), t.count("\\n") >= w * count(highest(ia), 0) + 1
def spec(ia, w):
    return "out.dat", True, True
''', _set(_w), "reader_writer:write_magnetogram_file", prop="R01", n=12)
    ob("R01_range%d" % _w, RW + '''
def impl(ia, w, top, mmin):
    rw.write_magnetogram_file(build(ia, w), "out.dat", top, mmin)
    p, t = one_file()
    rw.write_magnetogram_file(build(ia, w), "out2.dat", degree_max=top, order_min=mmin)
    return p, t.endswith("\\n" + data(ia, w, top, mmin)), vc_written()[1][1].endswith("\\n" + data(ia, w, top, mmin))
def spec(ia, w, top, mmin):
    return "out.dat", True, True
''', _setx(_w), "reader_writer:write_magnetogram_file", prop="R01", n=12)
    ob("R01_swmf%d" % _w, RW + '''
def impl(ia, w, top, mmin):
    rw.write_magnetogram_file(build(ia, w), "out.dat", degree_max=top, order_min=mmin, write_swmf_header=True)
    p, t = one_file()
    return p, t
def spec(ia, w, top, mmin):
    head = "out.dat\\n0  0.0  -2  3  2\\n%d  1\\n%d  0  0.0\\nn  m  g  h  nOrder  CR  dLon\\n" % (count(top, mmin), top)
    return "out.dat", head + data(ia, w, top, mmin)
''', _setx(_w), "reader_writer:write_magnetogram_file", prop="R01", n=12)
ob("R01_swmfdefault", RW + '''
def impl(ia, w):
    rw.write_magnetogram_file(build(ia, w), "out.dat", write_swmf_header=True)
    return one_file()
def spec(ia, w):
    top = highest(ia)
    head = "out.dat\\n0  0.0  -2  3  2\\n%d  1\\n%d  0  0.0\\nn  m  g  h  nOrder  CR  dLon\\n" % (count(top, 0), top)
    return "out.dat", head + data(ia, w, top, 0)
''', _set(1), "reader_writer:write_magnetogram_file", prop="R01", n=12)
ob("R01_noswmf", RW + '''
def impl(ia, w):
    rw.write_magnetogram_file(build(ia, w), "out.dat")
    rw.write_magnetogram_file(build(ia, w), "out.dat", write_swmf_header=False)
    f = vc_written()
    return f[0][1] == f[1][1], "nOrder" in f[0][1]
def spec(ia, w):
    return True, False
''', _set(1), "reader_writer:write_magnetogram_file", prop="R01", n=12)
ob("R01_header", '''
from starwinds_magnetogram import reader_writer as rw
def impl(name, n, l, cr):
    return list(rw.create_swmf_header(name, n, l, cr, 0.0)), list(rw.create_swmf_header(num_data_lines=n, file_name=name, max_degree=l, carrington_rotation_number=cr, dlon=0.5))
def spec(name, n, l, cr):
    return ([name, "0  0.0  -2  3  2", "%d  1" % n, "%d  %d  0.0" % (l, cr), "n  m  g  h  nOrder  CR  dLon"],
            [name, "0  0.0  -2  3  2", "%d  1" % n, "%d  %d  0.5" % (l, cr), "n  m  g  h  nOrder  CR  dLon"])
''', lambda h: [h.string("fname"), h.int("n", 1, 500), h.int("l", 0, 40), h.int("cr", 0, 3000)], "reader_writer:create_swmf_header", prop="R01")

# ------------------------------------------------------------------ R02
RD = CO + '''
from starwinds_magnetogram import reader_writer as rw
'''


def rline(r, idx, I):
    """random line: well-formed data, near misses and other text"""
    l, m = r.randint(0, 4), 0
    m = r.randint(-l, l)
    x, y = round(r.uniform(-300, 300), 3), round(r.uniform(-9, 9), 4)
    kinds = ["%d %d %r %r" % (l, m, x, y), "  %d\t%d  %e   %e extra tokens" % (l, m, x, y), "%3d  %3d  %13e  %13e" % (l, m, x, y),
             "%d %d %r" % (l, m, x), "%d %d" % (l, m), "%d" % l, "", "   ", "General poloidal plus toroidal field", "Order:15",
             "%d.0 %d %r %r" % (l, m, x, y), "%d %d.5 %r %r" % (l, m, x, y), "%d %d %r abc" % (l, m, x), "%d %d abc %r" % (l, m, y),
             "x %d %d %r %r" % (l, m, x, y), "%d %d %d %d" % (l, m, int(x), int(y)), "0 0.0 -2 3 2", "n m g h nOrder CR dLon",
             "%d  %d  %.6e  nan?" % (l, m, x), "+%d %d 1e3 -1e-3 7" % (l, m), "%d %d %r %r" % (l, l + 1, x, y)]
    return r.choice(kinds)


ob("R02_line", RD + '''
def impl(p):
    return obs(rw.read_magnetogram_file(p))
def spec(p):
    t = open(p).readlines()[0].split()
    data = True
    try:
        l = int(t[0])
        m = int(t[1])
        v = float(t[2]) + 1j * float(t[3])
    except (IndexError, ValueError):
        data = False
    if data:
        if abs(m) > l: raise AssertionError
        return {(l, m): np.array([v])}
    return {}
''', lambda h: [h.file("in.dat", [h.string("aline", rline)])], "reader_writer:read_magnetogram_file", prop="R02", n=200)


def dline(h, i, key, re=None):
    l, m = h.int("L%d" % key, dist=irange(0, 4)), h.int("M%d" % key, dist=irange(-2, 2))
    x, y = h.real("RE%d" % i), h.real("IM%d" % i)
    sep = ["  ", " ", "\\t  "][i % 3]
    return St(_cc([string(["", "  "][i % 2]), mk("strof", (l.t, string("i")), "s"), string(" "), mk("strof", (m.t, string("i")), "s"), string("  "),
                   mk("strof", (x.t, string("f")), "s"), string(" "), mk("strof", (y.t, string("f")), "s"), string(["", "  7"][i % 2])])), l, m, x, y


def fl(pattern, junk=()):
    """a file whose data lines have the given key pattern ('aab': first two lines share a key)"""
    def f(h):
        lines, args, keys = [], [], {}
        for i, ch in enumerate(pattern):
            k = ord(ch) - 97
            s, l, m, x, y = dline(h, i, k)
            for j in junk:
                lines.append(St(j))
            lines.append(s)
            keys[k] = (l, m)
            args += [l, m, x, y]
        for a in keys:
            l, m = keys[a]
            h.assume(le(m.t, l.t))
            h.assume(le(neg(m.t), l.t))
            for b in keys:
                if a < b:
                    h.assume(not_(and_(eq(keys[a][0].t, keys[b][0].t), eq(keys[a][1].t, keys[b][1].t))))
        return [h.file("in.dat", lines), Tup([Tup(args[i:i + 4]) for i in range(0, len(args), 4)])]
    return f


for _p, _groups in (("a", ["a"]), ("ab", ["ab"]), ("aa", ["a", "a"]), ("abc", ["abc"]), ("aba", ["ab", "a"]), ("abab", ["ab", "ab"]),
                    ("aab", ["a", "ab"]), ("abb", ["ab", "b"]), ("aaa", ["a", "a", "a"]), ("ababab", ["ab", "ab", "ab"]), ("abba", ["ab", "ba"]),
                    ("abca", ["abc", "a"]), ("abcb", ["abc", "b"])):
    for _jn, _junk in (("", ()), ("j", ("", "Some text", "12 3", "1 2 3.5", "1 2.0 3 4", "135 3 -3", "a b c d"))):
        if _jn and _p not in ("a", "aba", "abab"):
            continue
        ob("R02_%s%s" % (_p, _jn), RD + '''
def impl(p, d):
    s = rw.read_magnetogram_file(p)
    return s.default_coefficients, obs(s)
def spec(p, d):
    groups = %r
    w = len(groups)
    out = {}
    i = 0
    for g, members in enumerate(groups):
        for ch in members:
            l, m, x, y = d[i]
            i += 1
            v = np.array([(x + 1j * y) if j == g else 0j for j in range(w)])
            if (l, m) in out:
                out[(l, m)] = out[(l, m)] + v
            else:
                out[(l, m)] = v
    return np.zeros(w, dtype=complex), out
''' % (_groups,), fl(_p, _junk), "reader_writer:read_magnetogram_file", prop="R02", n=30)

# ------------------------------------------------------------------ R03
for _w in (1, 2, 3):
    for _h in (False, True):
        for _top in (1, 2):
            if _top == 2 and _w > 1:
                continue
            ob("R03_w%d_%s_l%d" % (_w, "swmf" if _h else "plain", _top), RD + '''
def impl(vals, w):
    c = sc.Coefficients(np.zeros(w, dtype=complex))
    i = 0
    for l in range(%d):
        for m in range(0, l + 1):
            c.append(l, m, vals[i])
            i += 1
    rw.write_magnetogram_file(c, "out.dat", write_swmf_header=%s)
    s = rw.read_magnetogram_file("out.dat")
    near = []
    i = 0
    for l in range(%d):
        for m in range(0, l + 1):
            v = s.get(l, m)
            for j in range(w):
                near.append(abs(v[j].real - vals[i][j].real) <= 1e-6 * abs(vals[i][j].real))
                near.append(abs(v[j].imag - vals[i][j].imag) <= 1e-6 * abs(vals[i][j].imag))
            i += 1
    return s.default_coefficients, s.size, s.degree_max, s.order_min, near
def spec(vals, w):
    n = len(vals)
    return np.zeros(w, dtype=complex), n, %d, 0, [True] * (2 * w * n)
''' % (_top + 1, _h, _top + 1, _top), (lambda w, top: lambda h: [h.list([h.arr("v%d_%d" % (w, i), [w], "c") for i in range((top + 1) * (top + 2) // 2)]), I_(w)])(_w, _top),
               ["reader_writer:read_magnetogram_file", "reader_writer:write_magnetogram_file"], prop="R03", n=20)
ob("R03_neg", RD + '''
def impl(vals, w):
    c = sc.Coefficients(np.zeros(w, dtype=complex))
    c.append(1, -1, vals[0])
    c.append(1, 1, vals[1])
    rw.write_magnetogram_file(c, "out.dat", order_min=-1)
    s = rw.read_magnetogram_file("out.dat")
    return s.size, s.degree_max, s.order_min, abs(s.get(1, -1)[0] - vals[0][0]) <= 2e-6 * abs(vals[0][0]), abs(s.get(1, 1)[0] - vals[1][0]) <= 2e-6 * abs(vals[1][0]), s.get(1, 0)[0]
def spec(vals, w):
    return 4, 1, -1, True, True, 0j
''', lambda h: [h.list([h.arr("v%d" % i, [1], "c") for i in range(2)]), I_(1)], ["reader_writer:read_magnetogram_file"], prop="R03", n=20)
ob("R03_format", RD + '''
def impl(l, m, x, y, p):
    """any single data line the writer emits, at any degree and magnitude"""
    c = sc.Coefficients()
    c.append(l, m, x + 1j * y)
    rw.write_magnetogram_file(c, "out.dat", order_min=m)
    t = vc_written()[0][1].split("\\n")
    ok = [q.split()[:2] == [str(l), str(m)] for q in t]
    return any(ok)
def spec(l, m, x, y, p):
    return True
''', lambda h: [h.int("l", 0, 400), h.int("m", -400, 400), h.real("x"), h.real("y"), h.string("p")], ["reader_writer:write_magnetogram_file"], prop="R03", n=20)
OBS.pop()
