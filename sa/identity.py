"""Separation certificates for value-graph terms.

When two normal forms differ, the analyser decides whether the *terms* denote
different functions by an algebraic identity test (random interpretation in the
sense of Gulwani & Necula, POPL 2003/2004): the atoms are given random values,
biased to the constants the two terms compare against.  A disagreement is a proof
that the terms differ; agreement on all interpretations is accepted as equality.
"""
import math
import cmath
import random
from .terms import *
from . import terms as tm

NANV = float("nan")
INFV = float("inf")


UNWRITTEN = "uninitialised element"


class OpaqueHit(Exception):
    def __init__(self, reason):
        self.reason = reason


class EvalErr(Exception):
    pass


# ------------------------------------------------------------------ special functions
def _lpmv(m, l, x):
    m, l = int(m), int(l)
    if l < 0:
        l = -l - 1
    if m < 0:
        m = -m
        if m > l:
            return 0.0
        return (-1) ** m * math.factorial(l - m) / math.factorial(l + m) * _lpmv(m, l, x)
    if m > l:
        return 0.0
    pmm = 1.0
    if m > 0:
        s = math.sqrt(max(0.0, (1 - x) * (1 + x)))
        f = 1.0
        for _ in range(m):
            pmm *= -f * s
            f += 2.0
    if l == m:
        return pmm
    p1 = x * (2 * m + 1) * pmm
    if l == m + 1:
        return p1
    for ll in range(m + 2, l + 1):
        pmm, p1 = p1, ((2 * ll - 1) * x * p1 - (ll + m - 1) * pmm) / (ll - m)
    return p1


def _dlpmv(m, l, x):
    m, l = int(m), int(l)
    if l == 0:
        return 0.0
    d = x * x - 1
    if d == 0:
        if m == 0:
            return (x ** (l + 1)) * l * (l + 1) / 2
        if m == 1:
            return INFV if (x > 0 or l % 2) else -INFV
        if m == 2:
            return -(x ** (l + 1)) * (l - 1) * l * (l + 1) * (l + 2) / 4
        return 0.0
    return (l * x * _lpmv(m, l, x) - (l + m) * _lpmv(m, l - 1, x)) / d


def _lambertw(z, k):
    z = complex(z)
    k = int(k)
    if z == 0:
        return 0j if k == 0 else complex(-INFV)
    if abs(z + 1 / math.e) < 0.3 and k in (0, -1):
        p = cmath.sqrt(2 * (math.e * z + 1))
        if k == -1:
            p = -p
        w = -1 + p - p * p / 3
    elif k == 0 and abs(z) < 1:
        w = z
    else:
        w = cmath.log(z) + 2j * math.pi * k
        if w != 0:
            w = w - cmath.log(w)
    for _ in range(60):
        e = cmath.exp(w)
        f = w * e - z
        d = e * (w + 1) - (w + 2) * f / (2 * w + 2) if w != -1 else e * (w + 1) or 1e-30
        if d == 0:
            break
        dw = f / d
        w -= dw
        if abs(dw) < 1e-14 * (1 + abs(w)):
            break
    return w


def _hash_val(sort, key):
    r = random.Random(repr(key))
    if sort == "b":
        return r.random() < 0.5
    if sort == "i":
        return r.randint(0, 5)
    if sort == "c":
        return complex(r.uniform(-2, 2), r.uniform(-2, 2))
    if sort == "s":
        return "s%d" % r.randint(0, 10 ** 9)
    if sort == "o":
        return ("o", r.randint(0, 10 ** 12))
    return r.uniform(-2, 2)


def _round(v):
    if isinstance(v, bool) or isinstance(v, str) or v is None:
        return v
    if isinstance(v, complex):
        return (_round(v.real), _round(v.imag))
    if isinstance(v, float):
        if v != v or v in (INFV, -INFV):
            return str(v)
        return float("%.7g" % (v + 0.0)) if abs(v) > 1e-9 else 0.0
    if isinstance(v, int):
        return _round(float(v))
    if isinstance(v, (tuple, list)):
        return tuple(_round(x) for x in v)
    return v


# ------------------------------------------------------------------ interpretations
class Interp:
    """one random interpretation of the atoms"""

    def __init__(self, seed, ipool=(), rpool=(), specials=True, lmax=4, mode="", jitter=0.0):
        """mode: "" ordinary values; "zero" many exact zeros (whole coefficients at a time); "same" few distinct values;
        "scale" everything unbounded tiny or large by one common factor"""
        self.seed, self.ipool, self.rpool, self.specials = seed, list(ipool), list(rpool), specials
        self.mode, self.jitter = mode, jitter
        self.factor = 10.0 ** random.Random("F%s" % (seed,)).choice((-13, -11, -9, -7, -5, -3, 3, 5)) if mode == "scale" else 1.0
        self.cache = {}
        self.memo = {}
        self._uo = None
        r = random.Random("U%s" % (seed,))
        top = lmax
        big = [int(c) for c in ipool if lmax < c <= 12]
        self.U = [(l, m) for l in range(0, top + 1) for m in range(-l, l + 1)]
        if big and r.random() < 0.4:
            b = r.choice(big)
            for bb in {b, b + 1, b - 1}:
                if bb > top:
                    self.U += [(bb, m) for m in (-bb, -1, 0, 1, bb)]
        self.shuf = r.random()
        self.lmax = max(l for l, _ in self.U)

    def uorder(self):
        """an arbitrary but fixed iteration order of unordered collections"""
        if self._uo is None:
            pts = list(self.U)
            random.Random("%s|%s" % (self.seed, self.shuf)).shuffle(pts)
            self._uo = pts
            self._ur = {p: i for i, p in enumerate(pts)}
        return self._uo

    def rank(self, p):
        """place of an index pair in that order (pairs beyond the sampled universe have places of their own between the others)"""
        self.uorder()
        r = self._ur.get(p)
        if r is None:
            r = self._ur[p] = self.rng("rank", p).uniform(-1, len(self._uo))
        return r

    def before(self, a, b):
        return self.rank(a) < self.rank(b)

    def rng(self, *key):
        return random.Random("%s|%s" % (self.seed, key))

    def atom(self, name, idx):
        k = (name, idx)
        if k in self.cache:
            return self.cache[k]
        sig = SIGS[name]
        dist = sig.get("dist")
        r = self.rng(name, idx)
        if dist is not None:
            v = dist(r, idx, self)
        else:
            v = self.default(sig, r, idx)
            if self.mode and sig["sort"] in ("r", "c") and not sig.get("hidden"):
                v = self.bend(v, name, idx, sig)
        self.cache[k] = v
        return v

    def bend(self, v, name, idx, sig):
        if self.mode == "scale":
            v = v * self.factor
            return v * (1 + self.jitter * self.rng("jitter", name, idx).uniform(-1, 1)) if self.jitter else v
        if self.mode == "zero" and not sig.get("pos"):
            q = 0.2 if name.endswith(".val") else 0.4          # a whole array of zeros; else single elements or coefficients
            if self.rng("zero", name).random() < q or self.rng("zero", name, idx[:2] if len(idx) > 2 else idx).random() < .45:
                return v * 0
        if self.mode == "same":
            r = self.rng("same", self.rng(name, idx).randint(0, 1))
            w = r.uniform(.3, 2)
            return complex(w, 0) if sig["sort"] == "c" else w
        return v

    def default(self, sig, r, idx):
        s = sig["sort"]
        if s == "i":
            if sig.get("pos"):
                return r.randint(1, 4)
            lo = 0 if sig.get("nonneg") else -4
            c = [p for p in self.ipool if p >= lo]
            if c and r.random() < .3:
                return int(r.choice(c)) + (r.choice((-1, 0, 0, 1)) if lo < 0 or True else 0)
            return r.randint(lo, 5)
        if s == "r":
            if self.specials and self.rpool and r.random() < .12:
                v = r.choice(self.rpool)
                if not (sig.get("pos") and v <= 0):
                    return float(v)
            if sig.get("pos"):
                return r.choice((r.uniform(.1, 4), r.uniform(.5, 2)))
            v = r.uniform(-2.5, 2.5)
            return abs(v) if sig.get("nonneg") else v
        if s == "c":
            if self.specials and r.random() < .05:
                return 0j
            return complex(r.uniform(-2, 2), r.uniform(-2, 2))
        if s == "b":
            return r.random() < .5
        if s == "s":
            return "str%d" % r.randint(0, 1000)
        return _hash_val(s, (self.seed, sig, idx))


def uni(lo, hi):
    def f(r, idx, I):
        c = [float(p) for p in I.rpool if lo <= p <= hi]
        if I.specials and c and r.random() < .12:
            return r.choice(c)
        return r.uniform(lo, hi)
    return f


def irange(lo, hi):
    def f(r, idx, I):
        c = [int(p) for p in I.ipool if lo <= p <= max(hi, 12)]
        if c and r.random() < .25:
            return r.choice(c)
        return r.randint(lo, hi)
    return f


def choices(*vs):
    return lambda r, idx, I: r.choice(vs)


def domain_points(I, kind, n, los, his, cond, h, env, ev):
    """enumerate index tuples of a binder domain"""
    if kind == "r":
        def rec(k, e):
            if k == n:
                if cond.op == "true" or truth(ev(cond, e)):
                    yield e
                return
            lo, hi = ev(los[k], e), ev(his[k], e)
            lo, hi = int(round(lo.real)), int(round(hi.real))
            if hi - lo > 4000:
                raise EvalErr("range too large")
            for x in range(lo, hi):
                e2 = dict(e)
                e2[(h, k)] = x
                yield from rec(k + 1, e2)
        yield from rec(0, env)
    else:
        more = () if guarded(cond) else beyond(I, cond, h, env, ev)
        if kind == "u":
            pts = I.uorder()
            if more:
                pts = sorted(list(pts) + more, key=I.rank)
        else:
            pts = sorted(list(I.U) + list(more))
        for l, m in pts:
            e2 = dict(env)
            e2[(h, 0)] = l
            e2[(h, 1)] = m
            if cond.op == "true" or truth(ev(cond, e2)):
                yield e2


_gd = {}


def guarded(c):
    """does the condition require membership in one of the symbolic sets (which lie inside the sampled universe)?"""
    r = _gd.get(c)
    if r is None:
        if c.op == "false":
            r = True
        elif c.op == "and":
            r = any(guarded(a) for a in c.args)
        elif c.op == "or":
            r = all(guarded(a) for a in c.args)
        else:
            r = c.op == "f" and isinstance(c.args[0], str) and c.args[0].endswith(".has") and all(a.op == "bv" for a in c.args[1:])
        _gd[c] = r
    return r


def beyond(I, cond, h, env, ev):
    """index pairs outside the sampled universe that satisfy a condition: degrees just above it, degrees at which one of the
    comparisons of the condition changes, and the runs of degrees next to them"""
    k = ("beyond", cond, h, tuple(sorted((b, v) for b, v in env.items() if isinstance(v, (int, float)))))
    r = I.memo.get(k)
    if r is not None:
        return r
    have = set(I.U)
    top = 4
    starts = {top + 1}
    stack, seen = [cond], set()
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("le0", "lt0", "eq0", "eq") and len(seen) < 400:
            e2 = dict(env)
            e2[(h, 0)] = e2[(h, 1)] = 0
            try:
                f = [0, 0]
                for l in (0, 1):
                    e2[(h, 0)] = l
                    w = [ev(a, e2) for a in t.args]
                    f[l] = w[0] - w[1] if len(w) == 2 else w[0]
                d = f[1] - f[0]
                if d:
                    x = -f[0] / d
                    x = int(x.real if isinstance(x, complex) else x)
                    starts.update(y for y in (x - 1, x, x + 1) if top < y < 80)
            except (EvalErr, OpaqueHit, KeyError, TypeError, ValueError, OverflowError, ZeroDivisionError):
                pass
        stack += [a for a in t.args if isinstance(a, T)]
    out, done = [], set()
    for s in sorted(starts):
        for step in (1, -1):
            l, idle = s, 0
            while top < l < 80 and idle < 2:
                if l in done:
                    if step == -1 or l != s:
                        break
                    l += step
                    continue
                done.add(l)
                hit = False
                for m in range(-l, l + 1):
                    e2 = dict(env)
                    e2[(h, 0)], e2[(h, 1)] = l, m
                    if truth(ev(cond, e2)):
                        hit = True
                        if (l, m) not in have:
                            out.append((l, m))
                if len(out) > 1500:
                    break
                idle = 0 if hit else idle + 1
                l += step
    I.memo[k] = out
    return out


def truth(v):
    if isinstance(v, complex):
        return v != 0
    return bool(v)


def _close(a, b):
    """tight equality used for eq tests inside terms"""
    if a == b:
        return True
    try:
        return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))
    except OverflowError:
        return False


def _pow(b, e):
    try:
        if isinstance(b, int) and isinstance(e, int):
            if e >= 0:
                return b ** e
            if b == 0:
                return INFV
            return float(b) ** e if abs(b) != 1 else int(b ** (-e))
        if b == 0:
            er = e.real if isinstance(e, complex) else e
            return 0.0 if er > 0 else (1.0 if er == 0 else INFV)
        if not isinstance(b, complex) and not isinstance(e, complex):
            if b < 0 and e != int(e):
                return NANV
            return float(b) ** e
        if isinstance(e, float) and e == 0.5:
            return cmath.sqrt(b)
        return complex(b) ** e
    except (OverflowError, ZeroDivisionError):
        return INFV
    except ValueError:
        return NANV


def _simplec(v):
    return v


def ev(t, I, env):
    op = t.op
    if op == "c":
        v = cval(t)
        if isinstance(v, tuple):
            return complex(float(v[0]), float(v[1]))
        return int(v) if v.denominator == 1 else float(v)
    if op == "bv":
        return env[(t.args[0], t.args[1])]
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "pi":
        return math.pi
    if op == "str":
        return t.args[0]
    if op == "nan":
        return NANV
    if op == "inf":
        return INFV
    if op == "opq":
        if t.args[1] == UNWRITTEN:
            # memory of an element no statement wrote: an arbitrary number, so anything that depends on it differs
            return 7.0e7 + 1.37 * (t.args[0] % 1009) if t.sort != "b" else True
        raise OpaqueHit(t.args[1])
    closed = t.h == 0 or op in BINDERS and not _freebv(t)
    if closed or not _freebv(t):
        k = t
    else:
        k = (t, tuple(env.get(b) for b in _freebv(t)))
    m = I.memo.get(k)
    if m is not None:
        if isinstance(m, Exception):
            raise m
        return m
    try:
        r = _ev(t, I, env)
    except OpaqueHit as e:
        I.memo[k] = e
        raise
    I.memo[k] = r
    return r


_fb = {}


def _freebv(t):
    r = _fb.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = (t.args[:2],)
    elif t.h == 0:
        r = ()
    else:
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s.update(_freebv(a))
        if t.op in BINDERS:
            s = {b for b in s if b[0] != t.h}
        r = tuple(sorted(s))
    _fb[t] = r
    return r


def _ev(t, I, env):
    op = t.op
    E = lambda x: ev(x, I, env)
    if op == "add":
        s = 0
        for a in t.args:
            s = s + E(a)
        return s
    if op == "mul":
        s = 1
        for a in t.args:
            v = E(a)
            if isinstance(v, bool):
                v = int(v)
            try:
                s = s * v
            except OverflowError:
                s = float(s) * float(v)
        return s
    if op == "pow":
        return _pow(E(t.args[0]), E(t.args[1]))
    if op == "f":
        return I.atom(t.args[0], tuple(_hk(E(a)) for a in t.args[1:]))
    if op == "ite":
        return E(t.args[1]) if truth(E(t.args[0])) else E(t.args[2])
    if op == "and":
        hit = None
        for a in t.args:
            try:
                if not truth(E(a)):
                    return False
            except OpaqueHit as e:
                hit = e
        if hit:
            raise hit
        return True
    if op == "or":
        hit = None
        for a in t.args:
            try:
                if truth(E(a)):
                    return True
            except OpaqueHit as e:
                hit = e
        if hit:
            raise hit
        return False
    if op == "not":
        return not truth(E(t.args[0]))
    if op == "le0":
        v = E(t.args[0])
        return bool(v.real <= 1e-12 * _mag(t.args[0], I, env)) if v == v else False
    if op == "lt0":
        v = E(t.args[0])
        return bool(v.real < -1e-12 * _mag(t.args[0], I, env)) if v == v else False
    if op == "eq0":
        v = E(t.args[0])
        return bool(abs(v) <= 1e-12 * _mag(t.args[0], I, env)) if v == v else False
    if op == "eqo":
        a, b = E(t.args[0]), E(t.args[1])
        return _round(a) == _round(b)
    if op in ("max", "min"):
        vs = [E(a) for a in t.args]
        if any(v != v for v in vs):
            return NANV
        return max(vs) if op == "max" else min(vs)
    if op == "tup":
        return tuple(E(a) for a in t.args)
    if op in BINDERS:
        return _ev_binder(t, I, env)
    args = [E(a) if isinstance(a, T) else a for a in t.args]
    return apply_fn(op, args, t, I)


def _mag(t, I, env):
    """magnitude scale of an additive term (for robust comparisons)"""
    if t.sort == "i":
        return 0
    m = 1.0
    if t.op == "add":
        for a in t.args:
            try:
                v = abs(ev(a, I, env))
                if v == v and v != INFV:
                    m = max(m, v)
            except OpaqueHit:
                pass
    return m


def _hk(v):
    if isinstance(v, float):
        if v == int(v) if v == v and abs(v) < 1e15 else False:
            return int(v)
        return _round(v)
    if isinstance(v, complex):
        return _round(v)
    return v


def _ev_binder(t, I, env):
    kind, n = t.args[0], t.args[1]
    rest = t.args[2:]
    if kind == "r":
        los, his, cond, body = rest[:n], rest[n:2 * n], rest[2 * n], rest[2 * n + 1]
    else:
        los, his, cond, body = (), (), rest[0], rest[1]
    pts = domain_points(I, kind, n, los, his, cond, t.h, env, lambda x, e: ev(x, I, e))
    op = t.op
    if op == "sum":
        s = 0
        for e in pts:
            s = s + ev(body, I, e)
        return s
    if op == "prod":
        s = 1
        for e in pts:
            s = s * ev(body, I, e)
        return s
    if op == "any":
        for e in pts:
            if truth(ev(body, I, e)):
                return True
        return False
    if op in ("bmax", "bmin"):
        vs = [ev(body, I, e) for e in pts]
        if not vs:
            return -INFV if op == "bmax" else INFV
        if any(v != v for v in vs):
            return NANV
        return max(vs, key=lambda v: v.real) if op == "bmax" else min(vs, key=lambda v: v.real)
    if op in ("argmax", "argmin"):
        best = None
        for i, e in enumerate(pts):
            v = ev(body, I, e)
            if best is None or (v > best[0] if op == "argmax" else v < best[0]):
                best = (v, i)
        return best[1] if best else 0
    if op == "pick":
        r = NANV
        for e in pts:
            r = ev(body, I, e)
        return r
    if op == "first":
        for e in pts:
            return ev(body, I, e)
        return NANV
    if op in ("seq",):
        return tuple(ev(body, I, e) for e in pts)
    if op == "cat":
        out = []
        for e in pts:
            out.extend(ev(body, I, e))
        return tuple(out)
    if op == "nth":
        i, b = body.args
        k = None
        for j, e in enumerate(pts):
            if k is None:
                k = int(ev(i, I, e))
            if j == k:
                return ev(b, I, e)
        return NANV
    if op == "dup":
        seen = set()
        for e in pts:
            v = _round(ev(body, I, e))
            if v in seen:
                return True
            seen.add(v)
        return False
    if op == "dom":
        return ("dom",)
    raise EvalErr("binder " + op)


def apply_fn(op, a, t, I):
    try:
        x = a[0] if a else None
        if op in ("sin", "cos", "exp", "log", "tan", "arccos", "arcsin", "arctan", "sinh", "cosh", "tanh"):
            if isinstance(x, complex):
                if x != x:
                    return complex(NANV, NANV)
                return {"sin": cmath.sin, "cos": cmath.cos, "exp": cmath.exp, "log": cmath.log, "tan": cmath.tan,
                        "arccos": cmath.acos, "arcsin": cmath.asin, "arctan": cmath.atan, "sinh": cmath.sinh,
                        "cosh": cmath.cosh, "tanh": cmath.tanh}[op](x)
            if x != x:
                return NANV
            if op == "log":
                return math.log(x) if x > 0 else (-INFV if x == 0 else NANV)
            if op in ("arccos", "arcsin"):
                if abs(x) > 1:
                    if abs(x) < 1 + 1e-12:
                        x = math.copysign(1.0, x)
                    else:
                        return NANV
                return math.acos(x) if op == "arccos" else math.asin(x)
            if op in ("sin", "cos", "tan") and abs(x) == INFV:
                return NANV
            return {"sin": math.sin, "cos": math.cos, "exp": math.exp, "tan": math.tan, "arctan": math.atan,
                    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh}[op](x)
        if op == "log10":
            return math.log10(x) if x > 0 else (-INFV if x == 0 else NANV)
        if op == "abs":
            return abs(x)
        if op == "conj":
            return x.conjugate()
        if op == "re":
            return x.real
        if op == "im":
            return x.imag
        if op == "arctan2":
            return math.atan2(_r(a[0]), _r(a[1]))
        if op in ("floor", "ceil", "trunc"):
            x = _r(x)
            if x != x or abs(x) == INFV:
                return x
            n = round(x)
            if abs(x - n) < 1e-9:
                return int(n)
            return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[op](x)
        if op == "round":
            return round(x, int(a[1]) if len(a) > 1 else 0)
        if op == "mod":
            if a[1] == 0:
                return NANV
            if isinstance(a[0], float) or isinstance(a[1], float):
                r = a[0] % a[1]
                return 0.0 if abs(r - a[1]) < 1e-9 * abs(a[1]) else r
            return a[0] % a[1]
        if op == "floordiv":
            return NANV if a[1] == 0 else (a[0] // a[1] if isinstance(a[0], int) and isinstance(a[1], int) else math.floor(a[0] / a[1] + 1e-12))
        if op == "sign":
            return (x > 0) - (x < 0)
        if op == "factorial":
            n = _r(x)
            if n < 0:
                return 0.0
            return float(math.factorial(int(round(n)))) if n < 150 else INFV
        if op == "isnan":
            return x != x
        if op == "isinf":
            return x in (INFV, -INFV)
        if op == "isfinite":
            return x == x and x not in (INFV, -INFV)
        if op == "lpmv":
            return _lpmv(_int(a[0]), _int(a[1]), float(_r(a[2])))
        if op == "dlpmv":
            return _dlpmv(_int(a[0]), _int(a[1]), float(_r(a[2])))
        if op == "sph_harm":
            m, l, az, pl = _int(a[0]), _int(a[1]), a[2], a[3]
            if abs(m) > l:
                return complex(NANV)
            c = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m))
            return c * _lpmv(m, l, math.cos(pl)) * cmath.exp(1j * m * az)
        if op == "lambertw":
            return _lambertw(a[0], a[1])
        if op == "lambertw_r":
            w = _lambertw(x, a[1])
            return w.real if abs(w.imag) < 1e-7 * max(1, abs(w)) else NANV
        if op == "isclose":
            p, q, rt, at = a[:4]
            en = len(a) > 4 and a[4]
            if p != p or q != q:
                return bool(en and p != p and q != q)
            if abs(p) == INFV or abs(q) == INFV:
                return p == q
            return abs(p - q) <= at + rt * abs(q) + 1e-13 * (abs(p) + abs(q))
        if op == "before":
            return I.before((_int(a[0]), _int(a[1])), (_int(a[2]), _int(a[3])))
        if op == "fmt":
            return _fmt(a)
        if op == "concat":
            return "".join(str(x) for x in a)
        if op == "strof":
            return _pystr(x, a[1] if len(a) > 1 else None)
        if op == "len_s":
            return len(x)
        if op == "join":
            return x.join(a[1])
        if op == "tcat":
            out = ()
            for q in a:
                out = out + tuple(q)
            return out
        if op == "cap1":
            return x
        if op.startswith("py:"):
            return getattr(a[0], op[3:])(*a[1:])
        if op == "basename":
            import posixpath
            return posixpath.basename(x)
        if op == "dirname":
            import posixpath
            return posixpath.dirname(x)
        if op in ("splitext0", "splitext1"):
            import posixpath
            return posixpath.splitext(x)[int(op[-1])]
        if op == "stri":
            return x[_int(a[1])]
        if op == "slices":
            return x[slice(*[None if q is None or q == "" else _int(q) for q in a[1:3]])]
        if op == "contains":
            return a[1] in a[0]
        if op in ("parses_int", "parses_float"):
            try:
                (int if op == "parses_int" else float)(x)
                return True
            except ValueError:
                return False
        if op == "int_of_str":
            return int(x)
        if op == "float_of_str":
            return float(x)
        if op == "fmtnum":
            return float(_fmt(a))
        if op == "ntok":
            return len(x.split() if isinstance(x, str) else x)
        if op == "tok":
            return (x.split() if isinstance(x, str) else x)[_int(a[1])]
        if op == "pysplit":
            return tuple(x.split(*a[1:]))
        if op == "tupget":
            return x[_int(a[1])]
        if op == "pjoin":
            import posixpath
            return posixpath.join(*a)
        if op in ("normpath", "abspath", "realpath", "exists", "isfile", "lexists", "isdir", "samefile"):
            return _disk(I, op, x, a)
    except (ValueError, ZeroDivisionError, IndexError):
        return NANV
    except OverflowError:
        return INFV
    return _hash_val(t.sort, (op, I.seed if False else 0, tuple(_round(x) for x in a)))


# a small imagined disk: one file under several names, another file, and names that do not exist
_INODE = {"/w/in.dat": 1, "/w/hard.dat": 1, "/w/other.dat": 2, "/w/sub/in.dat": 3}
_LINK = {"/w/link.dat": "/w/in.dat", "/w/sub2": "/w/sub"}
DISK = ("in.dat", "./in.dat", "sub/../in.dat", "/w/in.dat", "link.dat", "hard.dat", "other.dat", "sub/in.dat", "new.dat", "sub/new.dat")


def _disk(I, op, x, a):
    import posixpath

    def absn(p):
        return posixpath.normpath(posixpath.join("/w", p))

    def realp(p):
        q = absn(p)
        return _LINK.get(q, q)

    def inode(p):
        q = realp(p)
        if q in _INODE:
            return _INODE[q]
        if q in ("/w/new.dat", "/w/sub/new.dat"):
            return None
        return ("h", q) if _hash_val("b", ("exists", q, I.seed)) else None
    if op == "normpath":
        return posixpath.normpath(x)
    if op == "abspath":
        return absn(x)
    if op == "realpath":
        return realp(x)
    if op == "samefile":
        return inode(a[0]) is not None and inode(a[0]) == inode(a[1])
    if op == "isdir":
        return False
    return inode(x) is not None


def _r(x):
    return x.real if isinstance(x, complex) else x


def _int(x):
    return int(round(_r(x)))


def _pystr(x, kind):
    if kind == "f" and isinstance(x, int):
        return str(float(x))
    if isinstance(x, float) and abs(x) < 1e-12:
        x = 0.0
    return str(x)


def _fmt(a):
    """args: template with conversion specs as separate tokens: (spec, value)"""
    spec, v = a[0], a[1]
    try:
        if spec.startswith("%"):
            if isinstance(v, complex) and spec[-1] in "defgEG":
                v = v.real
            if spec[-1] in "eEfFgG":
                v = float(v) + 0.0
                if v == 0:
                    v = 0.0
            return spec % v
        return format(_fv(v, spec), spec)
    except (ValueError, TypeError, OverflowError):
        return "<fmt %s %r>" % (spec, _round(v))


def _fv(v, spec):
    if spec and spec[-1] in "eEfFgG%" and isinstance(v, (int, float)):
        return float(v) + 0.0 if v != 0 else 0.0
    return v


# ------------------------------------------------------------------ comparison
def collect_consts(ts):
    ints, reals = set(), set()
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen or not isinstance(t, T):
            continue
        seen.add(t)
        if t.op in ("le0", "lt0", "eq0"):
            d = t.args[0]
            ks = {F(0)}
            for p in (d.args if d.op == "add" else (d,)):
                c, b = coef(p)
                if b is None and not isinstance(c, tuple):
                    ks.add(c)
                    ks.add(-c)
            cs = [coef(p)[0] for p in (d.args if d.op == "add" else (d,)) if coef(p)[1] is not None]
            for k in list(ks):
                for c in cs:
                    if not isinstance(c, tuple) and c:
                        ks.add(k / c)
            for k in ks:
                reals.add(float(k))
                if k.denominator == 1 and abs(k) < 1000:
                    ints.update((int(k), int(k) + 1, int(k) - 1))
            # symbolic real bounds (pi etc.)
            if d.sort != "i" and any(x.op == "pi" or (x.op == "mul" and PI in x.args) for x in (d.args if d.op == "add" else (d,))):
                reals.update((math.pi, math.pi / 2, 2 * math.pi))
        elif t.op == "isclose":
            reals.add(0.0)
        elif t.op in ("mod",):
            ints.update((0, 1, 2, 3))
        for a in t.args:
            if isinstance(a, T):
                stack.append(a)
    return sorted(ints), sorted(reals)


def values_agree(a, b, tol=1e-7):
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))) or len(a) != len(b):
            return False
        return all(values_agree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    try:
        na, nb = a != a, b != b
        if na or nb:
            # NaN and infinity: an undefined point on both sides counts as agreement
            return (na or abs(a) == INFV) and (nb or abs(b) == INFV)
        ia, ib = abs(a) == INFV, abs(b) == INFV
        if ia or ib:
            return ia and ib
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except OverflowError:
        return True


class Verdict:
    def __init__(self, status, detail="", n=0):
        self.status, self.detail, self.n = status, detail, n


def compare(pre, t1, t2, n=60, seed=1, specials=True):
    """Decide t1 == t2 wherever pre holds."""
    if t1 is t2:
        return Verdict("identical")
    if isc(t1) and isc(t2):
        return Verdict("differ", "%s versus %s" % (t1, t2))
    ip, rp = collect_consts([pre, t1, t2])
    used = 0
    hits = {}
    tries = 0
    while used < n and tries < 6 * n:
        tries += 1
        mode = {3: "scale", 5: "zero", 9: "scale", 10: "same"}.get(tries % 12, "")
        sp = specials and tries % 2 == 0 and mode != "scale"
        I = Interp("%s:%s" % (seed, tries), ip, rp, specials=sp, mode=mode)
        try:
            if not truth(ev(pre, I, {})):
                continue
        except OpaqueHit as e:
            hits[e.reason] = hits.get(e.reason, 0) + 1
            continue
        except (EvalErr, RecursionError) as e:
            hits[str(e)] = 1
            continue
        try:
            v1 = ev(t1, I, {})
            v2 = ev(t2, I, {})
        except OpaqueHit as e:
            hits[e.reason] = hits.get(e.reason, 0) + 1
            continue
        except (EvalErr, RecursionError) as e:
            hits[str(e)] = 1
            continue
        used += 1
        if not values_agree(v1, v2):
            if mode == "scale":
                # extreme magnitudes: only a difference that survives rounding-sized changes of the values counts
                J = Interp("%s:%s" % (seed, tries), ip, rp, specials=sp, mode=mode, jitter=1e-11)
                try:
                    if not (values_agree(ev(t1, J, {}), v1, 1e-6) and values_agree(ev(t2, J, {}), v2, 1e-6)):
                        continue
                except (OpaqueHit, EvalErr, RecursionError):
                    continue
            w = {("%s%s" % (k[0], list(k[1]) if k[1] else "")): v if isinstance(v, float) and abs(v) < 1e-6 else _round(v) for k, v in sorted(I.cache.items(), key=lambda kv: str(kv[0]))
                 if k[0] in SIGS and not SIGS[k[0]].get("hidden")}
            w = {k: v for k, v in w.items() if not (".has[" in k and v is False)}
            w = dict(list(w.items())[:24])
            return Verdict("differ", "analysed=%s specified=%s at %s" % (_shortv(v1), _shortv(v2), w), used)
    if used == 0:
        if hits:
            return Verdict("undecided", "unmodelled: " + "; ".join(sorted(hits)[:3]))
        return Verdict("vacuous", "no interpretation satisfies the precondition")
    if hits and used < n // 4:
        return Verdict("undecided", "partly unmodelled: " + "; ".join(sorted(hits)[:3]), used)
    return Verdict("agree", "", used)


def _shortv(v):
    s = repr(_round(v))
    return s if len(s) < 200 else s[:200] + "..."
