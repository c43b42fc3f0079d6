"""Value-graph terms: hash-consed, normalised by construction.

A term denotes the value a program point computes as a function of the analysed
function's inputs.  Loops appear only as closed reductions (sum, prod, any, pick,
...) over a *domain*; control-flow joins appear as gates (ite).  Bound variables
are named by the height of their binder, so alpha-equivalent terms are identical
objects and equality of normal forms is pointer equality.
"""
from fractions import Fraction as F
import itertools

_tab = {}
_cnt = itertools.count(1)
EMPTY = frozenset()


class T:
    __slots__ = ("op", "args", "sort", "id", "h", "fvs", "opq", "_nn")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, args, sort):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort, t.id = op, args, sort, next(_cnt)
    h = 0
    fv = EMPTY
    opq = False
    for a in args:
        if type(a) is T:
            if a.h > h:
                h = a.h
            if a.fvs:
                fv = fv | a.fvs if fv else a.fvs
            opq = opq or a.opq
    t.h, t.fvs, t.opq, t._nn = h, fv, opq, None
    _tab[key] = t
    return t


# ------------------------------------------------------------------ constants
def _cn(v):
    """normalise constant: Fraction, or (re, im) when im != 0"""
    if isinstance(v, tuple):
        return F(v[0]) if v[1] == 0 else (F(v[0]), F(v[1]))
    return F(v)


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, complex):
        v = (F(repr(v.real)), F(repr(v.imag)))
    elif isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        v = F(repr(v))
    v = _cn(v)
    if isinstance(v, tuple):
        return mk("c", (v,), "c")
    return mk("c", (v,), "i" if v.denominator == 1 else "r")


TRUE = mk("true", (), "b")
FALSE = mk("false", (), "b")
NAN = mk("nan", (), "r")
INF = mk("inf", (), "r")
PI = mk("pi", (), "r")
ZERO = const(0)
ONE = const(1)
TWO = const(2)
HALF = const(F(1, 2))
IM = const((0, 1))
NEG1 = const(-1)


def isc(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def string(s):
    return mk("str", (s,), "s")


def _parts(v):
    return v if isinstance(v, tuple) else (v, F(0))


def _ca(a, b):
    a, b = _parts(a), _parts(b)
    return _cn((a[0] + b[0], a[1] + b[1]))


def _cm(a, b):
    if not isinstance(a, tuple) and not isinstance(b, tuple):
        return a * b
    a, b = _parts(a), _parts(b)
    return _cn((a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]))


def _cinv(a):
    a = _parts(a)
    n = a[0] ** 2 + a[1] ** 2
    return _cn((a[0] / n, -a[1] / n))


def _cpow(a, n):
    if n < 0:
        a, n = _cinv(a), -n
    r = F(1)
    for _ in range(n):
        r = _cm(r, a)
    return r


# ------------------------------------------------------------------ variables
_fresh = itertools.count(1)
VARINFO = {}   # fv id -> (lo, hi_exclusive) terms or None
SIGS = {}      # atom function name -> dict(sort=, nonneg=, pos=, dist=)


def fresh(sort="i", lo=None, hi=None, name=None):
    n = next(_fresh)
    t = mk("fv", (n, name, sort), sort)
    t.fvs = frozenset((n,))
    if lo is not None or hi is not None:
        VARINFO[n] = (lo, hi)
    return t


def vid(t):
    return t.args[0]


def declare(name, sort, **kw):
    SIGS[name] = dict(sort=sort, **kw)


def atom(name, *args):
    sig = SIGS[name]
    t = mk("f", (name,) + tuple(args), sig["sort"])
    if sig.get("ph"):
        t.fvs = t.fvs | {name}
    return t


_opq = itertools.count(1)


def opaque(reason, sort="r", *deps):
    t = mk("opq", (next(_opq), str(reason)[:160], sort) + tuple(d for d in deps if isinstance(d, T)), sort)
    t.opq = True
    return t


def _sortjoin(a, b):
    o = "birc"
    if a not in o or b not in o:
        return "r"
    r = o[max(o.index(a), o.index(b))]
    return "i" if r == "b" else r


# ------------------------------------------------------------------ arithmetic
def num(t):
    """coerce python numbers / bool terms to numeric term"""
    if not isinstance(t, T):
        return const(t)
    if t.sort == "b":
        return ite(t, ONE, ZERO)
    return t


def coef(t):
    if t.op == "c":
        return cval(t), None
    if t.op == "mul" and t.args[0].op == "c":
        rest = t.args[1:]
        return cval(t.args[0]), rest[0] if len(rest) == 1 else mk("mul", rest, _sj(rest))
    return F(1), t


def _sj(ts):
    s = "i"
    for t in ts:
        s = _sortjoin(s, t.sort)
    return s


def add(*ts):
    k = F(0)
    d = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        t = num(t)
        if t.op == "add":
            stack.extend(t.args)
            continue
        c, b = coef(t)
        if b is None:
            k = _ca(k, c)
        else:
            d[b] = _ca(d[b], c) if b in d else c
    items = [(b, c) for b, c in d.items() if c != 0]
    items.sort(key=lambda p: p[0].id)
    out = []
    if k != 0:
        out.append(const(k))
    for b, c in items:
        out.append(b if c == 1 else _cmul(c, b))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), _sj(out))


def _cmul(c, b):
    """constant times base without coefficient"""
    ct = const(c)
    if b.op == "mul":
        return mk("mul", (ct,) + b.args, _sj((ct, b)))
    return mk("mul", (ct, b), _sj((ct, b)))


def neg(t):
    return mul(NEG1, t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    k = F(1)
    d = {}
    stack = list(ts)
    while stack:
        t = num(stack.pop())
        if t.op == "mul":
            stack.extend(t.args)
            continue
        if t.op == "c":
            k = _cm(k, cval(t))
            continue
        b, e = (t.args[0], t.args[1]) if t.op == "pow" else (t, ONE)
        d.setdefault(b, []).append(e)
    if k == 0:
        return ZERO
    fs = []
    for b, es in d.items():
        if len(es) == 1:
            fs.append(power(b, es[0]))
            continue
        ints = [e for e in es if isc(e)]
        other = [e for e in es if not isc(e)]
        p = [cval(e) for e in ints if not isinstance(cval(e), tuple) and cval(e) > 0]
        n = [cval(e) for e in ints if not isinstance(cval(e), tuple) and cval(e) < 0]
        if p:
            fs.append(power(b, const(sum(p))))
        if n:
            fs.append(power(b, const(sum(n))))
        if len(other) > 1 and b is NEG1:
            fs.append(power(b, add(*other)))
        elif len(other) > 1 and isc(b):
            fs.append(power(b, add(*other)))
        else:
            fs.extend(power(b, e) for e in other)
    # powers may have produced constants / products
    flat = []
    for f in fs:
        if f.op == "c":
            k = _cm(k, cval(f))
        elif f.op == "mul":
            for a in f.args:
                if a.op == "c":
                    k = _cm(k, cval(a))
                else:
                    flat.append(a)
        else:
            flat.append(f)
    if k == 0:
        return ZERO
    flat.sort(key=lambda t: t.id)
    if not flat:
        return const(k)
    if len(flat) == 1:
        f = flat[0]
        if k == 1:
            return f
        if f.op == "add":
            return add(*[mul(const(k), a) for a in f.args])
        return mk("mul", (const(k), f), _sj((const(k), f)))
    if k != 1:
        flat.insert(0, const(k))
    return mk("mul", tuple(flat), _sj(flat))


def _isqrt(fr):
    import math
    if fr < 0:
        return None
    a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if a * a == fr.numerator and b * b == fr.denominator:
        return F(a, b)
    return None


def power(b, e):
    b, e = num(b), num(e)
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if b is ONE:
        return ONE
    if isc(e):
        ev = cval(e)
        if not isinstance(ev, tuple):
            isint = ev.denominator == 1
            if isc(b):
                bv = cval(b)
                if isint and (bv != 0 or ev > 0) and abs(ev) < 64:
                    return const(_cpow(bv, int(ev)))
                if bv == 0 and ev > 0:
                    return ZERO
                if not isinstance(bv, tuple) and ev.denominator == 2 and bv > 0:
                    r = _isqrt(bv)
                    if r is not None and abs(ev) < 64:
                        return const(_cpow(r, int(ev * 2)))
            if isint:
                if b.op == "pow":
                    return power(b.args[0], mul(b.args[1], e))
                if b.op == "mul":
                    return mul(*[power(a, e) for a in b.args])
                if b.op == "ite" and False:
                    pass
            else:
                # positive factors may be taken out of fractional powers
                if b.op == "mul":
                    p = [a for a in b.args if pos(a)]
                    if p and len(p) < len(b.args):
                        return mul(*[power(a, e) for a in p], power(mul(*[a for a in b.args if a not in p]), e))
                    if p and len(p) == len(b.args):
                        return mul(*[power(a, e) for a in p])
                if b.op == "pow" and pos(b.args[0]) and b.args[1].sort in "ir":
                    return power(b.args[0], mul(b.args[1], e))
    if b is NEG1 and e.sort == "i":
        e2 = _mod2(e)
        if e2 is not e:
            return power(b, e2)
    if b is NEG1 and e.sort == "i":
        s = "i"
    else:
        s = _sortjoin(b.sort, e.sort)
        if s == "i" and not (isc(e) and cval(e) > 0):
            s = "r"
    if b.op == "ite" and isc(e) and isc(b.args[1]) and isc(b.args[2]):
        return ite(b.args[0], power(b.args[1], e), power(b.args[2], e))
    return mk("pow", (b, e), s)


def _mod2(e):
    if e.op == "mod" and e.args[1] is TWO:
        return e.args[0]
    if e.op in ("add", "mul"):
        parts = e.args if e.op == "add" else (e,)
        out = []
        ch = False
        for p in parts:
            c, b = coef(p)
            if isinstance(c, tuple) or c.denominator != 1 or (b is not None and b.sort != "i"):
                return e
            c2 = c % 2
            if c2 != c:
                ch = True
            if b is None:
                if c2:
                    out.append(ONE)
            elif c2:
                b2 = _mod2(b) if b.op == "mod" else b
                if b2 is not b:
                    ch = True
                out.append(b2)
        if ch:
            return add(*out)
    return e


def div(a, b):
    return mul(a, power(b, NEG1))


def sqrt(a):
    return power(a, HALF)


def _leadneg(t):
    c, b = coef(t.args[0]) if t.op == "add" else coef(t)
    if t.op == "add" and b is None and len(t.args) > 1:
        c, b = coef(t.args[1])
    c = _parts(c)
    return c[0] < 0 or (c[0] == 0 and c[1] < 0)


def fn(name, *args):
    args = tuple(num(a) if isinstance(a, T) and a.sort in "birc" else a for a in args)
    a = args[0] if args else None
    if name == "before":
        if args[:2] == args[2:]:
            return FALSE
        return mk("before", args, "b")
    if name == "sqrt":
        return sqrt(a)
    if name in ("sin", "tan", "arctan", "arcsin", "sinh"):
        if a is ZERO:
            return ZERO
        if _leadneg(a):
            return neg(fn(name, neg(a)))
    if name in ("cos", "cosh"):
        if a is ZERO:
            return ONE
        if _leadneg(a):
            return fn(name, neg(a))
    if name == "exp" and a is ZERO:
        return ONE
    if name == "log" and a is ONE:
        return ZERO
    if name == "abs":
        if isc(a) and not isinstance(cval(a), tuple):
            return const(abs(cval(a)))
        if a.sort in "ir":
            if nonneg(a):
                return a
            if _leadneg(a):
                return fn("abs", neg(a))
        if a.op == "mul":
            return mul(*[fn("abs", x) if x.op != "pow" or True else x for x in a.args]) if len(a.args) > 1 else mk("abs", (a,), "r")
        return mk("abs", (a,), a.sort if a.sort in "ir" else "r")
    if name == "conj":
        if a.sort != "c":
            return a
        if isc(a):
            p = _parts(cval(a))
            return const((p[0], -p[1]))
        if a.op == "add":
            return add(*[fn("conj", x) for x in a.args])
        if a.op == "mul":
            return mul(*[fn("conj", x) for x in a.args])
        if a.op == "conj":
            return a.args[0]
        if a.op == "ite":
            return ite(a.args[0], fn("conj", a.args[1]), fn("conj", a.args[2]))
        if a.op == "exp":
            return fn("exp", fn("conj", a.args[0]))
        if a.op == "pow" and a.args[1].sort == "i":
            return power(fn("conj", a.args[0]), a.args[1])
        if a.op == "sum":
            d, b = openb(a)
            return bind("sum", d, fn("conj", b))
    if name in ("re", "im"):
        if a.sort != "c":
            return a if name == "re" else ZERO
        if isc(a):
            return const(_parts(cval(a))[0 if name == "re" else 1])
        if a.op == "add":
            return add(*[fn(name, x) for x in a.args])
        if a.op == "conj":
            return fn("re", a.args[0]) if name == "re" else neg(fn("im", a.args[0]))
        if a.op == "ite":
            return ite(a.args[0], fn(name, a.args[1]), fn(name, a.args[2]))
        if a.op == "mul":
            real = [x for x in a.args if x.sort != "c"]
            cplx = [x for x in a.args if x.sort == "c"]
            if real:
                return mul(*real, fn(name, mul(*cplx)))
            if cplx[0].op == "c":
                p = _parts(cval(cplx[0]))
                rest = mul(*cplx[1:])
                if name == "re":
                    return sub(mul(const(p[0]), fn("re", rest)), mul(const(p[1]), fn("im", rest)))
                return add(mul(const(p[0]), fn("im", rest)), mul(const(p[1]), fn("re", rest)))
        if a.op == "exp" and a.args[0].sort == "c":
            y = fn("im", a.args[0])
            x = fn("re", a.args[0])
            if x is ZERO:
                return fn("cos" if name == "re" else "sin", y)
        if a.op == "sum":
            d, b = openb(a)
            return bind("sum", d, fn(name, b))
        return mk(name, (a,), "r")
    if name in ("floor", "trunc", "ceil"):
        if a.sort == "i":
            return a
        if isc(a) and not isinstance(cval(a), tuple):
            import math
            v = cval(a)
            return const({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[name](v))
        if a.op == "ite":
            return ite(a.args[0], fn(name, a.args[1]), fn(name, a.args[2]))
        return mk(name, (a,), "i")
    if name == "mod":
        a, b = args
        if isc(a) and isc(b) and cval(b) != 0 and not isinstance(cval(a), tuple):
            return const(cval(a) % cval(b))
        if a.sort == "i" and isc(b) and nonneg(a) and lt(a, b) is TRUE:
            return a
        return mk("mod", args, _sj(args))
    if name == "floordiv":
        a, b = args
        if isc(a) and isc(b) and cval(b) != 0 and not isinstance(cval(a), tuple):
            return const(cval(a) // cval(b))
        if b is ONE and a.sort == "i":
            return a
        return mk("floordiv", args, "i")
    if name == "factorial" and isc(a):
        import math
        if cval(a).denominator == 1 and 0 <= cval(a) < 20:
            return const(math.factorial(int(cval(a))))
    if name == "rad2deg":
        return mul(a, const(180), power(PI, NEG1))
    if name == "deg2rad":
        return div(mul(a, PI), const(180))
    srt = FNSORT.get(name)
    if srt is None:
        srt = _sj([x for x in args if isinstance(x, T) and x.sort in "irc"]) if args else "r"
        if srt == "i":
            srt = "r"
    return mk(name, args, srt)


FNSORT = {"isnan": "b", "isinf": "b", "isfinite": "b", "arctan2": "r", "factorial": "r", "lpmv": "r", "dlpmv": "r",
          "sph_harm": "c", "lambertw": "c", "lambertw_r": "r", "sign": "r", "len_s": "i", "isclose": "b",
          "int_of_str": "i", "float_of_str": "r", "parses_int": "b", "parses_float": "b",
          "join": "s", "fmt": "s", "strof": "s", "split": "o", "splitext0": "s", "splitext1": "s",
          "basename": "s", "dirname": "s", "concat": "s", "startswith": "b", "endswith": "b", "contains": "b",
          "exists": "b", "wignerd": "c", "round": "r"}


def maxmin(name, *ts):
    out = {}
    c = None
    stack = list(ts)
    while stack:
        t = num(stack.pop())
        if t.op == name:
            stack.extend(t.args)
        elif isc(t) and not isinstance(cval(t), tuple):
            v = cval(t)
            c = v if c is None else (max if name == "max" else min)(c, v)
        else:
            out[t] = 1
    l = sorted(out, key=lambda t: t.id)
    # drop dominated
    if c is not None:
        ct = const(c)
        keep = []
        dominated = False
        for t in l:
            if name == "max":
                if le(t, ct) is TRUE:
                    continue
                if le(ct, t) is TRUE:
                    dominated = True
            else:
                if le(ct, t) is TRUE:
                    continue
                if le(t, ct) is TRUE:
                    dominated = True
            keep.append(t)
        l = keep
        if not dominated:
            l = [ct] + l
    if len(l) == 2:
        a, b = l
        if le(a, b) is TRUE:
            return b if name == "max" else a
        if le(b, a) is TRUE:
            return a if name == "max" else b
    if len(l) == 1:
        return l[0]
    return mk(name, tuple(l), _sj(l))


def tmax(*ts):
    return maxmin("max", *ts)


def tmin(*ts):
    return maxmin("min", *ts)


# ------------------------------------------------------------------ facts
def nonneg(t, depth=0):
    if t._nn is not None and depth == 0 and not t.fvs:
        return t._nn
    r = _nonneg(t, depth)
    if depth == 0 and not t.fvs:
        t._nn = r
    return r


def _nonneg(t, depth):
    op = t.op
    if op == "c":
        v = cval(t)
        return not isinstance(v, tuple) and v >= 0
    if op in ("pi", "inf"):
        return True
    if op == "f":
        s = SIGS[t.args[0]]
        return bool(s.get("nonneg") or s.get("pos"))
    if op == "fv":
        i = VARINFO.get(vid(t))
        return bool(i and i[0] is not None and depth < 3 and nonneg(i[0], depth + 1))
    if op == "add":
        return all(nonneg(a, depth) for a in t.args)
    if op == "mul":
        return all(nonneg(a, depth) for a in t.args)
    if op == "pow":
        b, e = t.args
        if isc(e) and not isinstance(cval(e), tuple) and cval(e).denominator == 1 and cval(e) % 2 == 0 and b.sort in "ir":
            return True
        return nonneg(b, depth)
    if op in ("abs", "factorial", "len_s"):
        return True
    if op == "exp":
        return t.sort in "ir"
    if op == "max":
        return any(nonneg(a, depth) for a in t.args)
    if op == "min":
        return all(nonneg(a, depth) for a in t.args)
    if op == "ite":
        return nonneg(t.args[1], depth) and nonneg(t.args[2], depth)
    if op == "sum":
        return nonneg(t.args[-1], depth) and t.args[-1].sort in "ir"
    if op in ("bmax", "bmin"):
        return nonneg(t.args[-1], depth)
    if op == "mod":
        return nonneg(t.args[1], depth)
    if op == "floordiv":
        return nonneg(t.args[0], depth) and pos(t.args[1])
    return False


def pos(t, depth=0):
    op = t.op
    if op == "c":
        v = cval(t)
        return not isinstance(v, tuple) and v > 0
    if op in ("pi", "inf"):
        return True
    if op == "f":
        return bool(SIGS[t.args[0]].get("pos"))
    if op == "fv":
        i = VARINFO.get(vid(t))
        return bool(i and i[0] is not None and depth < 3 and pos(i[0], depth + 1))
    if op == "add":
        return all(nonneg(a, depth) for a in t.args) and any(pos(a, depth) for a in t.args)
    if op == "mul":
        return all(pos(a, depth) for a in t.args)
    if op == "pow":
        return pos(t.args[0], depth)
    if op == "exp":
        return t.sort in "ir"
    if op == "factorial":
        return True
    if op == "max":
        return any(pos(a, depth) for a in t.args)
    if op == "min":
        return all(pos(a, depth) for a in t.args)
    if op == "ite":
        return pos(t.args[1], depth) and pos(t.args[2], depth)
    return False


def _bounds_nonneg(d, rounds=4):
    """prove d >= 0 by replacing range variables by their bounds"""
    if nonneg(d):
        return True
    for _ in range(rounds):
        cand = [n for n in d.fvs if n in VARINFO]
        if not cand:
            return False
        n = max(cand)
        lo, hi = VARINFO[n]
        k = F(0)
        rest = []
        for p in (d.args if d.op == "add" else (d,)):
            c, b = coef(p)
            if b is not None and b.op == "fv" and vid(b) == n:
                if isinstance(c, tuple):
                    return False
                k = k + c
                var = b
            elif n in p.fvs:
                return False
            else:
                rest.append(p)
        if k > 0:
            if lo is None:
                return False
            bound = lo
        else:
            if hi is None:
                return False
            bound = sub(hi, ONE) if var.sort == "i" else hi
        d = add(*rest, mul(const(k), bound))
        if nonneg(d):
            return True
    return False


# ------------------------------------------------------------------ booleans
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le0" and t.args[0].sort == "i":
        return le0(sub(ONE, t.args[0]))
    return mk("not", (t,), "b")


def _bool(t):
    if t.sort == "b":
        return t
    if t.sort in "irc":
        return not_(eq(t, ZERO))
    if t.sort == "s":
        return not_(eq(t, string("")))
    return t


def and_(*ts):
    s = {}
    stack = list(ts)[::-1]
    while stack:
        t = _bool(stack.pop())
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            stack.extend(t.args[::-1])
            continue
        s[t] = 1
    for t in s:
        if not_(t) in s:
            return FALSE
    if any(t.op == "or" for t in s):   # absorption / unit resolution
        for t in list(s):
            if t.op == "or":
                if any(a in s for a in t.args):
                    del s[t]
                    continue
                keep = [a for a in t.args if not_(a) not in s]
                if len(keep) < len(t.args):
                    del s[t]
                    return and_(*s, or_(*keep))
    if not s:
        return TRUE
    l = sorted(s, key=lambda t: t.id)
    if len(l) == 1:
        return l[0]
    return mk("and", tuple(l), "b")


def or_(*ts):
    s = {}
    stack = list(ts)[::-1]
    while stack:
        t = _bool(stack.pop())
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            stack.extend(t.args[::-1])
            continue
        s[t] = 1
    for t in s:
        if not_(t) in s:
            return TRUE
    if any(t.op == "and" for t in s):
        for t in list(s):
            if t.op == "and":
                if any(a in s for a in t.args):
                    del s[t]
                    continue
                keep = [a for a in t.args if not_(a) not in s]
                if len(keep) < len(t.args):
                    del s[t]
                    return or_(*s, and_(*keep))
    if not s:
        return FALSE
    l = sorted(s, key=lambda t: t.id)
    if len(l) == 1:
        return l[0]
    return mk("or", tuple(l), "b")


def conjuncts(t):
    return t.args if t.op == "and" else (() if t is TRUE else (t,))


def le0(d):
    if isc(d) and not isinstance(cval(d), tuple):
        return const(cval(d) <= 0)
    if d.op in ("nan",):
        return FALSE
    if d.op == "ite" and (isc(d.args[1]) or isc(d.args[2])):
        return ite(d.args[0], le0(d.args[1]), le0(d.args[2]))
    if _bounds_nonneg(neg(d)):
        return TRUE
    if pos(d) or (d.sort == "i" and _bounds_nonneg(sub(d, ONE))):
        return FALSE
    d = _scale(d)
    return mk("le0", (d,), "b")


def lt0(d):
    if d.sort == "i":
        return le0(add(d, ONE))
    if isc(d) and not isinstance(cval(d), tuple):
        return const(cval(d) < 0)
    if d.op == "nan":
        return FALSE
    if d.op == "ite" and (isc(d.args[1]) or isc(d.args[2])):
        return ite(d.args[0], lt0(d.args[1]), lt0(d.args[2]))
    if pos(neg(d)):
        return TRUE
    if _bounds_nonneg(d):
        return FALSE
    return mk("lt0", (_scale(d),), "b")


def _scale(d):
    """divide by the positive magnitude of the first non-constant coefficient"""
    parts = d.args if d.op == "add" else (d,)
    for p in parts:
        c, b = coef(p)
        if b is not None:
            if isinstance(c, tuple) or abs(c) == 1:
                return d
            if d.sort == "i":
                # keep integer forms integral: divide by gcd
                import math
                cs = [coef(q)[0] for q in parts]
                if any(isinstance(x, tuple) or x.denominator != 1 for x in cs):
                    return d
                g = 0
                for q in parts:
                    x, bb = coef(q)
                    g = math.gcd(g, int(x))
                return mul(const(F(1, g)), d) if g > 1 else d
            return mul(const(1 / abs(c)), d)
    return d


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "b" and b.sort == "b":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == "s" or b.sort == "s" or a.sort == "o" or b.sort == "o":
        if a.op == "str" and b.op == "str":
            return const(a.args[0] == b.args[0])
        if a.sort != b.sort and a.sort in "sirc" and b.sort in "sirc":
            return FALSE
        if a.op == "ite":
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if b.id < a.id:
            a, b = b, a
        return mk("eqo", (a, b), "b")
    d = sub(a, b)
    return eq0(d)


def eq0(d):
    if isc(d):
        return const(cval(d) == 0)
    if d.op == "nan":
        return FALSE
    if d.op == "ite":
        if isc(d.args[1]) or isc(d.args[2]):
            return ite(d.args[0], eq0(d.args[1]), eq0(d.args[2]))
    if pos(d) or pos(neg(d)):
        return FALSE
    if d.sort == "i" and (_bounds_nonneg(sub(d, ONE)) or _bounds_nonneg(sub(neg(d), ONE))):
        return FALSE
    # normalise sign/scale
    parts = d.args if d.op == "add" else (d,)
    for p in parts:
        c, b = coef(p)
        if b is not None:
            if d.sort == "i":
                d = _scale(d)
                parts2 = d.args if d.op == "add" else (d,)
                for q in parts2:
                    c2, b2 = coef(q)
                    if b2 is not None:
                        if not isinstance(c2, tuple) and c2 < 0:
                            d = neg(d)
                        break
            elif c != 1:
                d = mul(const(_cinv(c)), d)
            break
    return mk("eq0", (d,), "b")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "b" and b.sort == "b":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:      # ite(c, a, ite(d, x, a))
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[2] is b:      # ite(c, ite(d,x,b), b)
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.sort != b.sort:
        if a.sort == "b":
            a = num(a)
        if b.sort == "b":
            b = num(b)
    s = a.sort if a.sort == b.sort else (_sortjoin(a.sort, b.sort) if a.sort in "irc" and b.sort in "irc" else "o")
    # max / min recognition:  ite(a<b, b, a)
    if s in "ir" and c.op in ("lt0", "le0"):
        d = c.args[0]
        df = sub(a, b)
        if df is d or (c.op == "le0" and s == "i" and (df is sub(d, ONE))):
            return tmin(a, b)
        if neg(df) is d or (c.op == "le0" and s == "i" and (neg(df) is sub(d, ONE))):
            return tmax(a, b)
    return mk("ite", (c, a, b), s)


def gate_push(c, t):
    """t under assumption c (only resolves identical conditions)"""
    return simp_under(t, c)


_su_memo = {}


def simp_under(t, pc):
    """simplify t assuming pc holds: known conjuncts are replaced by TRUE/FALSE"""
    if pc is TRUE or t.op == "c":
        return t
    known = {}
    for k in conjuncts(pc):
        known[k] = TRUE
        n = not_(k)
        known[n] = FALSE
    return _replace_known(t, known, {})


def _replace_known(t, known, memo):
    if t in known:
        return known[t]
    if t.op in ("c", "f", "fv", "bv", "str", "pi", "true", "false", "nan", "inf", "opq") and t.sort != "b":
        if t.op != "f":
            return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("and", "or", "not", "ite"):
        new = tuple(_replace_known(a, known, memo) for a in t.args)
        r = t if new == t.args else rebuild(t, new)
    elif t.op in ("add", "mul", "pow", "max", "min", "re", "im", "conj", "abs") and t.sort in "irc" and _has_gate(t):
        new = tuple(_replace_known(a, known, memo) for a in t.args)
        r = t if new == t.args else rebuild(t, new)
    else:
        r = t
    memo[t] = r
    return r


_hg = {}


def _has_gate(t):
    r = _hg.get(t)
    if r is None:
        r = t.op == "ite" or any(isinstance(a, T) and _has_gate(a) for a in t.args)
        _hg[t] = r
    return r


# ------------------------------------------------------------------ domains and binders
class Dom:
    """Iteration/index domain: vars with integer ranges (or coefficient keys) and a condition."""
    __slots__ = ("kind", "vars", "los", "his", "cond", "_key")

    def __init__(self, kind, vars, los, his, cond=TRUE):
        self.kind, self.vars, self.los, self.his, self.cond = kind, tuple(vars), tuple(los), tuple(his), cond
        self._key = None

    @staticmethod
    def range(lo, hi, name=None):
        v = fresh("i", lo, hi, name)
        return Dom("r", (v,), (lo,), (hi,))

    @staticmethod
    def keys(cond_fn=None, ordered=True):
        l, m = fresh("i", None, None, "l"), fresh("i", None, None, "m")
        VARINFO[vid(l)] = (None, None)
        d = Dom("k" if ordered else "u", (l, m), (), ())
        if cond_fn:
            d.cond = cond_fn(l, m)
        return d

    @property
    def key(self):
        if self._key is None:
            self._key = bind_raw("dom", self, TRUE)
        return self._key

    def __eq__(self, o):
        return isinstance(o, Dom) and (self is o or self.key is o.key)

    def __hash__(self):
        return hash(self.key)

    def simple(self):
        return self.kind == "r" and len(self.vars) == 1 and self.cond is TRUE and self.los[0] is ZERO

    def rect(self):
        """rectangular multi-index starting at zero"""
        return self.kind == "r" and self.cond is TRUE and all(l is ZERO for l in self.los) and \
            not any(vid(v) in h.fvs for v in self.vars for h in self.his)

    def size(self):
        return bind("sum", self, ONE)

    def inst(self):
        """fresh copy of the domain"""
        m = {}
        vs = []
        los = []
        his = []
        for i, v in enumerate(self.vars):
            if self.kind == "r":
                lo, hi = subst(self.los[i], m), subst(self.his[i], m)
                n = fresh(v.sort, lo, hi, v.args[1])
                los.append(lo)
                his.append(hi)
            else:
                n = fresh(v.sort, None, None, v.args[1])
            m[v] = n
            vs.append(n)
        return Dom(self.kind, vs, los, his, subst(self.cond, m))

    def with_cond(self, c):
        return Dom(self.kind, self.vars, self.los, self.his, and_(self.cond, c))

    def inrange(self, idx):
        """condition that idx (terms) lies in the domain"""
        m = dict(zip(self.vars, idx))
        cs = [subst(self.cond, m)]
        for i, x in enumerate(idx):
            if self.kind == "r":
                cs.append(le(subst(self.los[i], m), x))
                cs.append(lt(x, subst(self.his[i], m)))
        return and_(*cs)

    def product(self, o):
        kind = "r" if self.kind == "r" and o.kind == "r" else None
        if kind is None:
            if not self.vars:
                return o
            if not o.vars:
                return self
            return None
        return Dom("r", self.vars + o.vars, self.los + o.los, self.his + o.his, and_(self.cond, o.cond))

    def __repr__(self):
        return "Dom(%s)" % (self.key,)


def bind_raw(op, dom, body, sort=None):
    n = len(dom.vars)
    h = max([t.h for t in (*dom.los, *dom.his, dom.cond, body)] + [0]) + 1
    m = {}
    for k, v in enumerate(dom.vars):
        b = mk("bv", (h, k, v.sort), v.sort)
        b.h = h
        m[v] = b
    s = _subst_raw
    args = (dom.kind, n) + tuple(s(t, m) for t in dom.los) + tuple(s(t, m) for t in dom.his) + (s(dom.cond, m), s(body, m))
    if sort is None:
        sort = body.sort
    t = mk(op, args, sort)
    t.h = h
    return t


def openb(t):
    """binder term -> (Dom with fresh variables, body)"""
    kind, n = t.args[0], t.args[1]
    rest = t.args[2:]
    if kind == "r":
        los, his, cond, body = rest[:n], rest[n:2 * n], rest[2 * n], rest[2 * n + 1]
    else:
        los, his, cond, body = (), (), rest[0], rest[1]
    h = t.h
    m = {}
    vs = []
    nl, nh = [], []
    for k in range(n):
        if kind == "r":
            b = mk("bv", (h, k, "i"), "i")
            lo, hi = _subst_raw(los[k], m), _subst_raw(his[k], m)
            v = fresh("i", lo, hi)
            nl.append(lo)
            nh.append(hi)
        else:
            b = mk("bv", (h, k, "i"), "i")
            v = fresh("i")
        m[b] = v
        vs.append(v)
    return Dom(kind, vs, nl, nh, _subst_raw(cond, m)), _subst_raw(body, m)


def _dep(t, vars):
    return any(vid(v) in t.fvs for v in vars)


def dom_subst(dom, m):
    return Dom(dom.kind, dom.vars, [subst(x, m) for x in dom.los], [subst(x, m) for x in dom.his], subst(dom.cond, m))


def _solve(dom, protect=()):
    """find a conjunct v == e in dom.cond with v a domain variable; return (v, e, rest)"""
    for c in conjuncts(dom.cond):
        if c.op != "eq0":
            continue
        d = c.args[0]
        for p in (d.args if d.op == "add" else (d,)):
            k, b = coef(p)
            if b is not None and b in dom.vars and k in (1, -1):
                rest = sub(d, p)
                if vid(b) in rest.fvs:
                    continue
                e = neg(rest) if k == 1 else rest
                if e.sort != "i":
                    continue
                others = and_(*[x for x in conjuncts(dom.cond) if x is not c])
                return b, e, others
    return None


def _elim(dom, v, e, others):
    """eliminate solved variable v := e. Returns (dom', subst map) with in-range condition added."""
    i = dom.vars.index(v)
    m = {v: e}
    if any(_dep(e, (w,)) for w in dom.vars[:i]) or True:
        # e may depend on any other variable of the domain
        pass
    cond = subst(others, m)
    if dom.kind == "r":
        lo, hi = dom.los[i], dom.his[i]
        cond = and_(cond, le(lo, e), lt(e, hi))
        vs = [w for w in dom.vars if w is not v]
        los = [subst(x, m) for j, x in enumerate(dom.los) if j != i]
        his = [subst(x, m) for j, x in enumerate(dom.his) if j != i]
        # ranges of earlier variables must not depend on later ones
        for j, w in enumerate(vs):
            later = vs[j:]
            if _dep(los[j], later) or _dep(his[j], later):
                return None
        for w, lo2, hi2 in zip(vs, los, his):
            pass
        nd = Dom("r", vs, los, his, cond)
        return nd, m
    return None


def _solve_keys(dom):
    """for key domains: both variables must be solved at once"""
    s1 = _solve(dom)
    if not s1:
        return None
    v, e, rest = s1
    if _dep(e, dom.vars):
        return None
    d2 = Dom(dom.kind, dom.vars, (), (), subst(rest, {v: e}))
    other = [w for w in dom.vars if w is not v][0]
    for c in conjuncts(d2.cond):
        if c.op == "eq0":
            d = c.args[0]
            for p in (d.args if d.op == "add" else (d,)):
                k, b = coef(p)
                if b is other and k in (1, -1):
                    r = sub(d, p)
                    if _dep(r, dom.vars) or r.sort != "i":
                        continue
                    e2 = neg(r) if k == 1 else r
                    m = {v: e, other: e2}
                    cond = subst(and_(*[x for x in conjuncts(d2.cond) if x is not c]), m)
                    return cond, m
    return None


def bind(op, dom, body):
    if op in ("sum", "any", "prod"):
        body = num(body) if op != "any" else _bool(body)
    if op == "any":
        dom = dom.with_cond(body)
        body = TRUE
        if dom.cond is FALSE:
            return FALSE
        if dom.cond.op == "or":
            return or_(*[bind("any", Dom(dom.kind, dom.vars, dom.los, dom.his, c), TRUE) for c in dom.cond.args])
        # conditions not depending on the variables come out
        out = [c for c in conjuncts(dom.cond) if not _dep(c, dom.vars)]
        if out:
            inn = and_(*[c for c in conjuncts(dom.cond) if _dep(c, dom.vars)])
            return and_(*out, bind("any", Dom(dom.kind, dom.vars, dom.los, dom.his, inn), TRUE))
    if not dom.vars:
        if op == "sum":
            return ite(dom.cond, body, ZERO)
        if op == "prod":
            return ite(dom.cond, body, ONE)
        if op == "any":
            return dom.cond
        if op in ("pick", "first", "bmax", "bmin"):
            return body
    if op in ("sum", "pick", "first", "any", "prod"):
        if dom.cond is FALSE:
            return {"sum": ZERO, "any": FALSE, "prod": ONE}.get(op, body if not _dep(body, dom.vars) else NAN)
        if dom.kind == "r":
            s = _solve(dom)
            if s:
                r = _elim(dom, *s)
                if r:
                    nd, m = r
                    return bind(op, nd, subst(body, m))
        else:
            r = _solve_keys(dom)
            if r:
                cond, m = r
                return bind(op, Dom("r", (), (), (), cond), subst(body, m))
    if op == "sum":
        if body is ZERO:
            return ZERO
        if body.op == "add":
            return add(*[bind("sum", dom, a) for a in body.args])
        if body.op == "ite" and body.args[2] is ZERO:
            return bind("sum", dom.with_cond(body.args[0]), body.args[1])
        if body.op == "ite" and body.args[1] is ZERO:
            return bind("sum", dom.with_cond(not_(body.args[0])), body.args[2])
        if body.op == "mul":
            out = [a for a in body.args if not _dep(a, dom.vars)]
            if out:
                inn = mul(*[a for a in body.args if _dep(a, dom.vars)])
                return mul(*out, bind("sum", dom, inn))
            gates = [a for a in body.args if a.op == "ite" and (a.args[1] is ZERO or a.args[2] is ZERO)]
            if gates:
                g = gates[0]
                rest = mul(*[a for a in body.args if a is not g])
                if g.args[2] is ZERO:
                    return bind("sum", dom.with_cond(g.args[0]), mul(g.args[1], rest))
                return bind("sum", dom.with_cond(not_(g.args[0])), mul(g.args[2], rest))
        elif not _dep(body, dom.vars) and body is not ONE:
            return mul(body, bind("sum", dom, ONE))
        if body is ONE and dom.rect():
            return mul(*[h if nonneg(h) else tmax(h, ZERO) for h in dom.his])
        if body is ONE and dom.kind == "r" and dom.cond is TRUE and len(dom.vars) == 1:
            n = sub(dom.his[0], dom.los[0])
            return n if nonneg(n) else tmax(n, ZERO)
        out = [c for c in conjuncts(dom.cond) if not _dep(c, dom.vars)]
        if out:
            inn = and_(*[c for c in conjuncts(dom.cond) if _dep(c, dom.vars)])
            return ite(and_(*out), bind("sum", Dom(dom.kind, dom.vars, dom.los, dom.his, inn), body), ZERO)
    if op in ("bmax", "bmin", "pick", "first") and not _dep(body, dom.vars):
        return body
    # expand small constant ranges
    if dom.kind == "r" and dom.los and isc(dom.los[0]) and isc(dom.his[0]) and op in ("sum", "any", "prod", "bmax", "bmin", "pick", "first"):
        n = cval(dom.his[0]) - cval(dom.los[0])
        if n <= 8:
            vals = []
            for k in range(int(cval(dom.los[0])), int(cval(dom.his[0]))):
                m = {dom.vars[0]: const(k)}
                nd = Dom("r", dom.vars[1:], [subst(x, m) for x in dom.los[1:]], [subst(x, m) for x in dom.his[1:]],
                         subst(dom.cond, m))
                if op in ("pick", "first"):
                    vals.append((bind("any", nd, TRUE), bind(op, nd, subst(body, m))))
                elif op in ("bmax", "bmin") and nd.cond is not TRUE:
                    vals = None
                    break
                else:
                    vals.append(bind(op, nd, subst(body, m)))
            if vals is not None:
                if op == "sum":
                    return add(*vals)
                if op == "prod":
                    return mul(*vals) if vals else ONE
                if op == "any":
                    return or_(*vals)
                if op in ("bmax", "bmin") and vals:
                    return maxmin("max" if op == "bmax" else "min", *vals)
                if op in ("pick", "first") and vals:
                    if op == "first":
                        vals = vals[::-1]
                    r = vals[0][1]
                    for c, v in vals[1:]:
                        r = ite(c, v, r)
                    return r
    return bind_raw(op, dom, body)


BINDERS = ("sum", "prod", "any", "bmax", "bmin", "pick", "first", "dom", "seq", "nth", "argmax", "argmin", "dup", "cat")


def tany(dom, c):
    return bind("any", dom, c)


def tall(dom, c):
    return not_(bind("any", dom, not_(_bool(c))))


# ------------------------------------------------------------------ substitution
def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "le0":
        return le0(*args)
    if op == "lt0":
        return lt0(*args)
    if op == "eq0":
        return eq0(*args)
    if op == "eqo":
        return eq(*args)
    if op in ("max", "min"):
        return maxmin(op, *args)
    if op == "f":
        return atom(*args)
    if op == "opq":
        r = mk("opq", args, t.sort)
        r.opq = True
        return r
    if op in KEEP or op.startswith("py:"):
        if op == "concat":
            from .npmodel import concat
            return concat(args)
        return mk(op, args, t.sort)
    if op in ("true", "false", "c", "str", "pi", "nan", "inf", "fv", "bv", "tup"):
        return mk(op, args, t.sort)
    return fn(op, *args)


KEEP = {"ufn", "fmt", "strof", "strobj", "concat", "slices", "stri", "tok", "ntok", "isclose", "tcat", "cap1", "tup", "tupget", "rand",
        "join", "pysplit", "len_s", "basename", "dirname", "abspath", "realpath", "normpath", "expanduser", "normcase", "exists", "isfile",
        "isdir", "lexists", "samefile", "splitext0", "splitext1", "pjoin", "parses_int", "parses_float", "int_of_str", "float_of_str",
        "contains", "truthx", "draw"}


def _subst_raw(t, m):
    """substitution without reopening binders (used for bound-variable naming only)"""
    return _sub(t, m, {}, True)


def subst(t, m):
    if not m:
        return t
    return _sub(t, m, {}, False)


def _sub(t, m, memo, raw):
    if t in m:
        return m[t]
    if t.op in ("c", "str", "pi", "true", "false", "nan", "inf"):
        return t
    if not raw and not _touches(t, m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        if raw:
            args = tuple(_sub(a, m, memo, raw) if isinstance(a, T) else a for a in t.args)
            if args == t.args:
                r = t
            else:
                r = mk(t.op, args, t.sort)
                r.h = t.h
        else:
            d, b = openb(t)
            nd = Dom(d.kind, d.vars, [_sub(x, m, memo, False) for x in d.los], [_sub(x, m, memo, False) for x in d.his],
                     _sub(d.cond, m, memo, False))
            for v, lo, hi in zip(nd.vars, nd.los, nd.his):
                VARINFO[vid(v)] = (lo, hi)
            r = bind(t.op, nd, _sub(b, m, memo, False))
    else:
        args = tuple(_sub(a, m, memo, raw) if isinstance(a, T) else a for a in t.args)
        if args == t.args:
            r = t
        elif raw and t.op not in ("le0", "lt0", "eq0"):
            r = rebuild(t, args)
        elif raw:
            r = mk(t.op, args, t.sort) if t.op in ("le0", "lt0", "eq0") else rebuild(t, args)
        else:
            r = rebuild(t, args)
    memo[t] = r
    return r


def _touches(t, m):
    for k in m:
        if k.op in ("fv",):
            if vid(k) in t.fvs:
                return True
        else:
            return True
    return False


def subst_atoms(t, name, f, memo=None):
    """replace every application of atom function `name` by f(*args) (placeholder elimination)"""
    if memo is None:
        memo = {}
    if name not in t.fvs:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "f" and t.args[0] == name:
        r = f(*[subst_atoms(a, name, f, memo) for a in t.args[1:]])
    elif t.op in BINDERS:
        d, b = openb(t)
        nd = Dom(d.kind, d.vars, [subst_atoms(x, name, f, memo) for x in d.los],
                 [subst_atoms(x, name, f, memo) for x in d.his], subst_atoms(d.cond, name, f, memo))
        r = bind(t.op, nd, subst_atoms(b, name, f, memo))
    else:
        args = tuple(subst_atoms(a, name, f, memo) if isinstance(a, T) else a for a in t.args)
        r = rebuild(t, args)
    memo[t] = r
    return r


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "c":
        v = cval(t)
        return "(%s%+sj)" % v if isinstance(v, tuple) else str(v)
    if t.op == "fv":
        return (t.args[1] or "v") + str(t.args[0])
    if t.op == "bv":
        return "b%d.%d" % t.args[:2]
    if t.op == "str":
        return repr(t.args[0])
    if t.op == "opq":
        return "?<%s>" % t.args[1]
    if depth <= 0:
        return "..."
    s = lambda a: show(a, depth - 1)
    if t.op == "f":
        return t.args[0] + ("[" + ",".join(s(a) for a in t.args[1:]) + "]" if len(t.args) > 1 else "")
    if t.op == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if t.op == "mul":
        return "*".join(s(a) for a in t.args)
    if t.op == "pow":
        return "%s**%s" % (s(t.args[0]), s(t.args[1]))
    if t.op == "ite":
        return "if(%s ? %s : %s)" % tuple(s(a) for a in t.args)
    if t.op in ("le0", "lt0", "eq0"):
        return "%s%s0" % (s(t.args[0]), {"le0": "<=", "lt0": "<", "eq0": "=="}[t.op])
    if t.op in BINDERS:
        return "%s{%s}" % (t.op, ", ".join(s(a) for a in t.args[1:]))
    if not t.args:
        return t.op
    return "%s(%s)" % (t.op, ", ".join(s(a) for a in t.args))


def concat_terms(parts):
    from .npmodel import concat
    return concat(parts)
