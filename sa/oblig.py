"""Obligations: a client of the public API and its specification are both turned into
value graphs by the same analysis and compared, observation by observation."""
import ast
import itertools
import math
import time
import traceback
from .terms import *
from . import terms as tm
from .values import *
from .interp import Program, Analyzer, State, Dead, Out, UnknownValue, Unsupported
from . import identity as idn
from .identity import compare, uni, irange, choices, ev as evt

PRELUDE = '''
import math
import os
import cmath
import numpy as np
import scipy
'''


class AnchorMissing(Exception):
    pass


class H:
    """builds symbolic inputs in a given state"""

    def __init__(self, I, st, ints=False, inst=None):
        """ints: integer-typed values for the real arguments; inst: number of a concrete choice of sizes, integers and index sets"""
        self.I, self.st, self.pres, self.ints = I, st, [], ints
        self.inst = None if inst is None else idn.Interp("inst%s" % inst, specials=False)
        I.n_ints = 0

    def assume(self, c):
        self.pres.append(c)

    def t(self, name, sort, *idx, **kw):
        if name not in SIGS:
            declare(name, sort, **kw)
        return atom(name, *idx)

    def int(self, name, lo=None, hi=None, np=False, dist=None):
        kw = {}
        if lo is not None and lo >= 0:
            kw["nonneg"] = True
        if lo is not None and lo >= 1:
            kw["pos"] = True
        if dist is None and (lo is not None or hi is not None):
            dist = irange(lo if lo is not None else -4, hi if hi is not None else (lo if lo is not None else 0) + 5)
        if dist is not None:
            kw["dist"] = dist
        t = self.t(name, "i", **kw)
        if self.inst:
            t = const(int(self.inst.atom(name, ())))
        if lo is not None:
            self.assume(le(const(lo), t))
        if hi is not None:
            self.assume(le(t, const(hi)))
        return S(t, "i", np)

    def real(self, name, lo=None, hi=None, np=False, dist=None, open=False):
        kw = {}
        if lo is not None and lo >= 0:
            kw["nonneg"] = True
            if lo > 0 or open:
                kw["pos"] = True
        if dist is None and lo is not None and hi is not None:
            dist = uni(float(lo), float(hi))
        elif dist is None and lo is not None:
            dist = uni(float(lo), float(lo) + 4)
        if dist is not None:
            kw["dist"] = dist
        sort = "r"
        if self.ints and lo is not None and (hi is None or hi - lo >= 1):
            a, b = math.ceil(lo), math.floor(hi if hi is not None else lo + 6)
            if open:
                a, b = (a + 1 if a == lo else a), (b - 1 if hi is not None and b == hi else b)
            if a < b:
                sort, kw["dist"] = "i", irange(a, b)
                self.I.n_ints += 1
        elif self.ints and lo is None and hi is None and dist is None:
            sort, kw["dist"] = "i", irange(-5, 5)
            self.I.n_ints += 1
        t = self.t(name, sort, **kw)
        if lo is not None:
            self.assume((lt if open else le)(const(lo), t))
        if hi is not None:
            self.assume((lt if open else le)(t, const(hi)))
        return S(t, "i" if sort == "i" else "f", np)

    def cplx(self, name, np=False):
        return S(self.t(name, "c"), "c", np)

    def flag(self, name):
        return S(self.t(name, "b"), "b")

    def size(self, name, least=1, hi=4):
        """symbolic length: least + a nonnegative unknown"""
        t = self.t(name, "i", nonneg=True, dist=irange(0, hi - least))
        if self.inst:
            t = const(int(self.inst.atom(name, ())))
        return add(const(least), t)

    def string(self, name, dist=None):
        return St(self.t(name, "s", **({"dist": dist} if dist else {})))

    def arr(self, name, dims, k="f", dist=None, lo=None, hi=None):
        """numeric array of given dimension sizes"""
        kw = {}
        if self.ints and k == "f" and dist is None:
            a, b = math.ceil(-5 if lo is None else lo), math.floor(hi if hi is not None else 5 if lo is None else lo + 5)
            if a < b:
                k, dist = "i", irange(a, b)
                self.I.n_ints += 1
        if dist is None and lo is not None:
            dist = uni(float(lo), float(hi if hi is not None else lo + 4))
        if lo is not None and lo >= 0:
            kw["nonneg"] = True
            if lo > 0:
                kw["pos"] = True
        if dist is not None:
            kw["dist"] = dist
        ds = [Dom.range(ZERO, d if isinstance(d, T) else const(d)) for d in dims]
        sort = {"f": "r", "i": "i", "c": "c", "b": "b"}[k]
        if name not in SIGS:
            declare(name, sort, **kw)
        vs = [v for d in ds for v in d.vars]
        body = atom(name, *vs)
        if self.inst and k == "i":
            ns = [isc(d) and int(d.args[0]) if isinstance(d, T) else d for d in dims]
            if all(n is not False for n in ns):
                body = ZERO
                for ix in itertools.product(*[range(n) for n in ns]):
                    body = ite(and_(*[eq(v, const(i)) for v, i in zip(vs, ix)]), const(int(self.inst.atom(name, ix))), body)
        return self.I.arr_new(self.st, ds, body, k)

    def dict(self, d):
        return self.I.new(self.st, DictC(d))

    def list(self, vs):
        return self.I.lst(self.st, vs)

    def cmap(self, name, w, k="c", cond=None):
        """coefficient dictionary {(l, m): array of w numbers} with l >= |m|"""
        l, m = fresh("i", name="l"), fresh("i", name="m")
        if name + ".has" not in SIGS:
            declare(name + ".has", "b", dist=lambda r, idx, I: abs(idx[0]) <= 4 and r.random() < (0.07, 0.25, 0.5, 0.8)[hash_(I.seed, name) % 4])
            declare(name + ".val", {"c": "c", "f": "r", "i": "i"}[k])
        has = and_(atom(name + ".has", l, m), le(m, l), le(neg(m), l))
        if self.inst:
            has = or_(*[and_(eq(l, const(i)), eq(m, const(j))) for i in range(4) for j in range(-i, i + 1) if self.inst.atom(name + ".has", (i, j))])
        if cond is not None:
            has = and_(has, cond(l, m))
        if w is None:
            val = S(atom(name + ".val", l, m, ZERO), k, True)
        else:
            d = Dom.range(ZERO, w)
            val = AV(ArrC((d,), atom(name + ".val", l, m, d.vars[0]), k))
        return self.I.new(self.st, MapC(l, m, has, val))

    def file(self, path, lines):
        """a readable file with the given lines (terms or strings)"""
        p = path.t if isinstance(path, St) else string(path)
        ls = [("i", x if isinstance(x, St) else St(x)) for x in lines]
        if not hasattr(self.I, "infiles"):
            self.I.infiles = []
        self.I.infiles.append((p, ls))
        return St(p)

    def ufn(self, name, k="f", shape=None):
        return Ufn(name, k, shape)


def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


class Mismatch:
    def __init__(self, path, guard, msg):
        self.path, self.guard, self.msg = path, guard, msg


class Pair:
    def __init__(self, path, guard, a, b):
        self.path, self.guard, self.a, self.b = path, guard, a, b


class Cmp:
    """structural comparison of two abstract values"""

    def __init__(self, I1, s1, I2, s2, opts):
        self.I1, self.s1, self.I2, self.s2 = I1, s1, I2, s2
        self.out = []
        self.opts = opts
        self.seen = set()

    def mism(self, path, guard, msg):
        self.out.append(Mismatch(path, guard, msg))

    def term(self, path, guard, a, b):
        if a is b:
            self.out.append(Pair(path, guard, a, b))
            return
        self.out.append(Pair(path, guard, a, b))

    def val(self, path, g, a, b):
        if g is FALSE:
            return
        if isinstance(a, Gt):
            self.val(path, and_(g, a.c), a.a, b)
            self.val(path, and_(g, not_(a.c)), a.b, b)
            return
        if isinstance(b, Gt):
            self.val(path, and_(g, b.c), a, b.a)
            self.val(path, and_(g, not_(b.c)), a, b.b)
            return
        if isinstance(a, Un) or isinstance(b, Un):
            w = a.why if isinstance(a, Un) else b.why
            self.out.append(Pair(path, g, opaque(w), ZERO))
            return
        ca, cb = self.cont(self.I1, a, self.s1), self.cont(self.I2, b, self.s2)
        if isinstance(ca, Un) or isinstance(cb, Un):
            self.out.append(Pair(path, g, opaque((ca if isinstance(ca, Un) else cb).why), ZERO))
            return
        if isinstance(ca, (ArrC, S)) and isinstance(cb, (ArrC, S)):
            self.arr(path, g, ca, cb)
            return
        if isinstance(ca, St) and isinstance(cb, St):
            self.term(path, g, ca.t, cb.t)
            return
        if isinstance(ca, list) and isinstance(cb, list):
            self.seq(path, g, ca, cb)
            return
        if isinstance(ca, list) and isinstance(cb, ArrC):
            try:
                self.arr(path, g, self.I1.arr_from_segs(ca, self.s1), cb)
                return
            except Unsupported:
                pass
        if isinstance(cb, list) and isinstance(ca, ArrC):
            try:
                self.arr(path, g, ca, self.I2.arr_from_segs(cb, self.s2))
                return
            except Unsupported:
                pass
        if isinstance(ca, (DictC, MapC)) and isinstance(cb, (DictC, MapC)):
            self.map(path, g, ca, cb)
            return
        if isinstance(ca, SetC) and isinstance(cb, SetC):
            self.term(path + ".members", g, ca.has, subst(cb.has, {cb.l: ca.l, cb.m: ca.m}))
            return
        if isinstance(ca, ObjC) and isinstance(cb, ObjC):
            key = (a.id if isinstance(a, Ref) else 0, b.id if isinstance(b, Ref) else 0)
            if key in self.seen:
                return
            self.seen.add(key)
            if (ca.cls.name if isinstance(ca.cls, ClsV) else ca.cls) != (cb.cls.name if isinstance(cb.cls, ClsV) else cb.cls):
                self.mism(path, g, "object of class %s instead of %s" % (ca.cls, cb.cls))
                return
            for n in sorted(set(ca.attrs) | set(cb.attrs)):
                if n in ca.attrs and n in cb.attrs:
                    self.val(path + "." + n, g, ca.attrs[n], cb.attrs[n])
                else:
                    self.mism(path + "." + n, g, "attribute set on one side only")
            return
        if a is NONE and b is NONE:
            return
        if isinstance(a, Eff) and isinstance(b, Eff):
            if a.what != b.what:
                self.mism(path, g, "%s instead of %s" % (a.what, b.what))
                return
            self.val(path + ".args", g, Tup(a.args), Tup(b.args))
            for k in sorted(set(a.kw) | set(b.kw)):
                if k in a.kw and k in b.kw:
                    self.val(path + "." + k, g, a.kw[k], b.kw[k])
                else:
                    self.mism(path + "." + k, g, "keyword %s on one side only" % k)
            return
        if type(a) is type(b):
            if isinstance(a, B) and a == b:
                return
            if isinstance(a, (FnV, ClsV, ModV)) and getattr(a, "name", 0) == getattr(b, "name", 1):
                return
            if isinstance(a, ExtO) and a.path == b.path:
                if isinstance(a.key, tuple) and isinstance(b.key, tuple) and len(a.key) == len(b.key):
                    for x, y in zip(a.key, b.key):
                        if isinstance(x, T) and isinstance(y, T):
                            self.term(path, g, x, y)
                return
            if isinstance(a, Dt) and a.k == b.k:
                return
        self.mism(path, g, "%s instead of %s" % (kindname(self.I1, a, self.s1), kindname(self.I2, b, self.s2)))

    def cont(self, I, v, st):
        if isinstance(v, Tup):
            return [("i", x) for x in v.items]
        if isinstance(v, It):
            return list(v.segs)
        if isinstance(v, (Ref, View, Cell, AV)):
            c = I.content(v, st)
            if isinstance(c, ListC):
                return list(c.segs)
            return c
        if isinstance(v, Partial) and v.fn in ("mapkeys", "unzip"):
            return I.segments(v, st)
        return v

    def arr(self, path, g, a, b):
        da = a.dims if isinstance(a, ArrC) else ()
        db = b.dims if isinstance(b, ArrC) else ()
        if self.opts.get("dtype", True):
            ka, kb = a.k, b.k
            fam = lambda k: k if self.opts.get("dtype") == "exact" else {"b": "b", "i": "n", "f": "n", "c": "n"}[k]
            if fam(ka) != fam(kb):
                self.mism(path, g, "kind %s instead of %s" % (ka, kb))
                return
        if len(da) != len(db):
            one = lambda d: d.simple() and d.his[0] is ONE
            if self.opts.get("squeeze"):
                da2, db2 = [d for d in da if not one(d)], [d for d in db if not one(d)]
                if len(da2) == len(db2):
                    ma = {v: ZERO for d in da if one(d) for v in d.vars}
                    mb = {v: ZERO for d in db if one(d) for v in d.vars}
                    a = ArrC(da2, subst(a.body, ma), a.k) if da2 or isinstance(a, ArrC) else a
                    b = ArrC(db2, subst(b.body, mb), b.k) if db2 or isinstance(b, ArrC) else b
                    da, db = da2, db2
            if len(da) != len(db):
                self.mism(path, g, "array of %d dimensions instead of %d" % (len(da), len(db)))
                return
        ta = a.body if isinstance(a, ArrC) else a.t
        tb = b.body if isinstance(b, ArrC) else b.t
        m = {}
        gg = g
        for i, (p, q) in enumerate(zip(da, db)):
            if p == q and len(p.vars) == len(q.vars):
                m.update(zip(q.vars, p.vars))
                gg = and_(gg, p.inrange(p.vars)) if p.cond is not TRUE else gg
                continue
            self.term("%s.shape[%d]" % (path, i), g, p.size(), q.size())
            if p.simple() and q.simple():
                m[q.vars[0]] = p.vars[0]
                gg = and_(gg, lt(p.vars[0], q.his[0]))
            elif len(p.vars) == len(q.vars) == 1:
                # compare by position through sequences
                sa = bind_seq(da, ta)
                sb = bind_seq(db, tb)
                self.term(path, g, sa, sb)
                return
            else:
                self.term(path, g, bind_seq(da, ta), bind_seq(db, tb))
                return
        self.term(path, gg, ta, subst(tb, m))

    def seq(self, path, g, a, b):
        if len(a) == len(b) and all(x[0] == y[0] == "i" for x, y in zip(a, b)):
            for i, (x, y) in enumerate(zip(a, b)):
                self.val("%s[%d]" % (path, i), g, x[1], y[1])
            return
        if all(x[0] == "i" for x in a) and all(x[0] == "i" for x in b):
            self.mism(path, g, "%d items instead of %d" % (len(a), len(b)))
            return
        self.term(path, g, enc_segs(self.I1, a, self.s1), enc_segs(self.I2, b, self.s2))

    def map(self, path, g, a, b):
        if isinstance(a, DictC) and isinstance(b, DictC):
            ka, kb = list(a.items), list(b.items)
            for k in ka + [k for k in kb if k not in a.items]:
                if k in a.items and k in b.items:
                    self.val("%s[%r]" % (path, k), g, a.items[k], b.items[k])
                else:
                    self.mism("%s[%r]" % (path, k), g, "key %s" % ("unexpected" if k in a.items else "missing"))
            if self.opts.get("order") and ka != kb and set(ka) == set(kb):
                self.mism(path, g, "keys in another order")
            return
        if isinstance(a, DictC):
            a = as_map(self.I1, a, self.s1)
        if isinstance(b, DictC):
            b = as_map(self.I2, b, self.s2)
        if a is None or b is None:
            self.mism(path, g, "different kinds of mapping")
            return
        m = {b.l: a.l, b.m: a.m}
        hb = subst(b.has, m)
        self.term(path + ".keys", g, a.has, hb)
        if a.val is None or b.val is None:
            return
        self.val(path + "[l,m]", and_(g, a.has, hb), a.val, self.I2.val_subst(b.val, m))


def as_map(I, c, st):
    r = I.new(st, DictC({}))
    for k, v in c.items.items():
        if not (isinstance(k, tuple) and len(k) == 2):
            return None
        I.map_store(r, st.heap[r.id], const(k[0]), const(k[1]), v, st)
    c = st.heap[r.id]
    if isinstance(c, DictC):
        return MapC(fresh("i"), fresh("i"), FALSE, None)
    return c


def kindname(I, v, st):
    if isinstance(v, (Ref, View, Cell, AV)):
        c = I.content(v, st)
        return {"ArrC": "array", "ListC": "list", "DictC": "dict", "MapC": "mapping", "SetC": "set", "ObjC": "object"}.get(type(c).__name__, "?")
    return {"S": "number", "St": "string", "NoneV": "None", "Tup": "tuple"}.get(type(v).__name__, repr(v)[:80])


def bind_seq(dims, t):
    for d in reversed(dims):
        t = tm.bind_raw("seq", d, t, "o")
    return t


def enc(I, v, st):
    """single term denoting a value (for sequences of symbolic length)"""
    if isinstance(v, S):
        return num(v.t) if v.k != "b" else v.t
    if isinstance(v, St):
        return v.t
    if v is NONE:
        return mk("tup", (string("None"),), "o")
    if isinstance(v, Tup):
        return mk("tup", tuple(enc(I, x, st) for x in v.items), "o")
    if isinstance(v, It):
        return enc_segs(I, v.segs, st)
    if isinstance(v, Gt):
        a, b = enc(I, v.a, st), enc(I, v.b, st)
        return mk("ite", (v.c, a, b), "o") if a is not b else a
    if isinstance(v, (Ref, View, Cell, AV)):
        c = I.content(v, st)
        if isinstance(c, ArrC):
            return bind_seq(c.dims, c.body)
        if isinstance(c, ListC):
            return enc_segs(I, c.segs, st)
        if isinstance(c, DictC):
            return mk("tup", tuple(mk("tup", (string(repr(k)), enc(I, x, st)), "o") for k, x in sorted(c.items.items(), key=lambda kv: repr(kv[0]))), "o")
        if isinstance(c, (S, AV, Un)):
            return enc(I, c, st)
    if isinstance(v, Eff):
        return mk("tup", (string(v.what),) + tuple(enc(I, x, st) for x in v.args) +
                  tuple(mk("tup", (string(k), enc(I, x, st)), "o") for k, x in sorted(v.kw.items())), "o")
    if isinstance(v, (B, FnV, ClsV, ModV)):
        return string("<%s>" % v.name)
    if isinstance(v, ExtO):
        return mk("tup", (string(v.path),) + tuple(k for k in (v.key if isinstance(v.key, tuple) else ()) if isinstance(k, T)), "o")
    if isinstance(v, Un):
        return opaque(v.why, "o")
    return opaque("encoding of %s" % type(v).__name__, "o")


def enc_segs(I, segs, st):
    parts = []
    for s in segs:
        if s[0] == "i":
            parts.append(mk("tup", (enc(I, s[1], st),), "o"))
        elif s[0] == "d":
            parts.append(tm.bind_raw("seq", s[1], enc(I, s[2], st), "o"))
        elif s[0] == "g":
            parts.append(tm.bind_raw("cat", s[1], enc_segs(I, s[2], st), "o"))
        else:
            parts.append(opaque("partial list", "o"))
    if len(parts) == 1:
        return parts[0]
    # merge neighbouring constants
    return mk("tcat", tuple(parts), "o")


# ------------------------------------------------------------------ deciding
# specifications that leave open which inputs are rejected (they say what an accepted input gives)
OPEN_REJECTION = {
    "C01_from_arrays", "N01_pfss_history", "F02_inputs", "S04_labels_x", "S04_labels_y", "S04_labels_z", "S01_pfss_axes", "S02_degree_scaled",
    "Z04_restricted_both", "Z04_restricted_degree", "Z04_restricted_single", "Z04_restricted_keywords", "Z04_restricted_order",
    "Z04_restricted_pair", "Z04_dipole", "V04_inputs"}


class Ob:
    def __init__(self, name, client, args, anchor, prop=None, **opts):
        if name in OPEN_REJECTION:
            opts.setdefault("aborts", False)
        self.name, self.client, self.args, self.prop, self.opts = name, client, args, prop, opts
        self.anchor = anchor if isinstance(anchor, (list, tuple)) else [anchor]


class Res:
    def __init__(self, ob):
        self.ob = ob
        self.status = "held"
        self.notes = []
        self.violations = []
        self.visited = set()
        self.pairs = self.identical = self.agree = self.undecided = 0
        self.interps = self.frames = 0
        self.wall = 0.0


def name_free(ts):
    """replace index variables by atoms carrying their range"""
    fvs = {}
    seen = set()
    stack = [t for t in ts if t is not None]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "fv":
            if vid(t) not in fvs:
                fvs[vid(t)] = t
                lo, hi = VARINFO.get(vid(t), (None, None))
                stack += [x for x in (lo, hi) if x is not None]
            continue
        if not t.fvs:
            continue
        for a in t.args:
            if isinstance(a, T):
                stack.append(a)
    m = {}
    pre = []
    prev = None
    for i in sorted(fvs):
        v = fvs[i]
        lo, hi = VARINFO.get(i, (None, None))
        n = "%s.%d" % (v.args[1] or "i", i)
        if lo is not None:
            lo2, hi2 = subst(lo, m), subst(hi, m)

            def dist(r, idx, I, lo2=lo2, hi2=hi2):
                a, b = evt(lo2, I, {}), evt(hi2, I, {})
                a, b = int(round(a.real)), int(round(b.real))
                return r.randint(a, b - 1) if b > a else a
            declare(n, "i", dist=dist, nonneg=lo is ZERO)
            x = atom(n)
            m[v] = x
            pre += [le(lo2, x), lt(x, hi2)]
        else:
            if v.args[1] == "m" and prev is not None:
                def dist(r, idx, I, p=prev):
                    L = I.atom(p, ())
                    return r.randint(-L, L) if r.random() < .93 else L + 1
            else:
                def dist(r, idx, I):
                    q = r.random()
                    if q < .12:
                        c = [x for x in I.ipool if 4 < x <= 40]
                        return int(r.choice(c)) - r.randint(0, 1) if c and q < .08 else r.randint(5, 7)
                    return r.choice(I.U)[0]
                prev = n
            declare(n, v.sort, **({"dist": dist} if v.sort == "i" else {}))
            m[v] = atom(n)
    return m, and_(*pre)


def decide(pre, a, b, n, seed):
    m, rng = name_free([pre, a, b])
    if m:
        pre, a, b = and_(rng, subst(pre, m)), subst(a, m), subst(b, m)
    s = simp_under(a, pre)
    t = simp_under(b, pre)
    if s is t:
        return idn.Verdict("identical")
    return compare(pre, s, t, n=n, seed=seed)


def locate(prog, dotted):
    """file:line of a public function or class of the package"""
    mod, _, rest = dotted.partition(":")
    full = prog.package + ("." + mod if mod else "")
    tree = prog.trees.get(full)
    if tree is None:
        return None
    body = tree.body
    line, cls = 1, None
    for part in [p for p in rest.split(".") if p]:
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                line, body, cls = n.lineno, n.body, n
                break
        else:
            if isinstance(cls, ast.ClassDef) and cls.bases:      # inherited
                return "%s:%d" % (prog.files[full], line)
            # bound by an import or an assignment?
            for n in ast.walk(tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == part for a in n.names):
                    return "%s:%d" % (prog.files[full], n.lineno)
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == part for t in n.targets):
                    return "%s:%d" % (prog.files[full], n.lineno)
            return None
    return "%s:%d" % (prog.files[full], line)


_parse_cache = {}


def load_program(root):
    p = _parse_cache.get(root)
    if p is None:
        p = Program(root)
        _parse_cache[root] = p
    return p


def client_program(base, name, src):
    p = Program.__new__(Program)
    p.root, p.package = base.root, base.package
    p.trees, p.files = dict(base.trees), dict(base.files)
    p.trees[name] = ast.parse(src)
    p.files[name] = "<%s>" % name
    return p


def execute(prog, mod, fname, ob, hooks=None, ints=False, inst=None):
    I = Analyzer(prog)
    if hooks:
        hooks(I)
    I.widen = ob.opts.get("widen")
    st = State()
    I.module(mod)
    h = H(I, st, ints, inst)
    args = ob.args(h)
    kw = {}
    if isinstance(args, tuple):
        args, kw = args
    st.pc = and_(*h.pres)
    n0 = len(I.aborts)
    del I.taints[:]
    try:
        f = I.modattr(mod, fname, st)
        v = I.call(f, list(args), dict(kw), st)
    except Dead:
        v = None
    except UnknownValue as e:
        v = Un(str(e))
        I.taint("unknown value reached the result: %s" % e)
    except Unsupported as e:
        v = Un(str(e))
        I.taint("unsupported: %s" % e)
    return I, st, v, args, and_(*h.pres), I.aborts[n0:]


def run_ob(prog, ob, tier="quick", seed=1, only=None):
    """compare a client with its specification; where the general comparison stays undecided, fall back to concrete choices
    of all sizes, integers and index sets (the real values stay symbolic)"""
    r = attempt(prog, ob, tier, seed, only)
    if r.status in ("undecided", "held-incomplete") and not r.violations:
        fallback(prog, ob, tier, seed, only, r)
    return r


def fallback(prog, ob, tier, seed, only, r):
    t0 = time.time()
    want, budget = (5, 60 if only is None else 15) if tier == "quick" else (20, 400)
    good = tried = 0
    cp = client_program(prog, "vclient_%s" % ob.name, PRELUDE + ob.client)
    seen = set()
    for k in range(400):
        if good >= want or tried >= 2 * want or time.time() - t0 > budget:
            break
        pre = precondition(cp, ob, only, k)
        if pre is FALSE or pre in seen and len(seen) > 1 and k < 8:
            continue
        tried += 1
        q = attempt(prog, ob, tier, seed, only, inst=k)
        r.pairs += q.pairs
        r.identical += q.identical
        r.agree += q.agree
        r.interps += q.interps
        if q.violations:
            r.violations = [(p, "%s [instance %d]" % (m, k)) for p, m in q.violations]
            r.status = "violated"
            break
        good += q.status == "held"
    if r.status != "violated" and good >= 3:
        r.status = "held-instances"
    r.notes.append("%d of %d concrete instances decided" % (good, tried))
    r.wall += time.time() - t0


def precondition(cp, ob, only, inst):
    I = Analyzer(cp)
    if ob.opts.get("hooks"):
        ob.opts["hooks"](I)
    st = State()
    I.module("vclient_%s" % ob.name)
    h = H(I, st, only == "integer", inst)
    try:
        ob.args(h)
    except (Dead, UnknownValue, Unsupported):
        return FALSE
    return and_(*h.pres)


def attempt(prog, ob, tier="quick", seed=1, only=None, inst=None):
    """only="frame": compare just what the call leaves behind in its arguments; "failure": just that what must be rejected is;
    "integer": the whole obligation, for integer-typed values of its real arguments"""
    t0 = time.time()
    r = Res(ob)
    n = ob.opts.get("n", 40) * (1 if tier == "quick" else ob.opts.get("deep", 8))
    for a in ob.anchor:
        if locate(prog, a) is None:
            raise AnchorMissing(a)
    mod = "vclient_%s" % ob.name
    cp = client_program(prog, mod, PRELUDE + ob.client)
    hooks = ob.opts.get("hooks")
    I2, s2, v2, a2, pre2, ab2 = execute(cp, mod, "spec", ob, hooks, only == "integer", inst)
    if I2.taints:
        r.status = "spec-error"
        r.notes.append("specification not fully understood: %s" % I2.taints[:3])
    I1, s1, v1, a1, pre, ab1 = execute(cp, mod, "impl", ob, hooks, only == "integer", inst)
    r.visited = {x for x in I1.visited if not x.startswith("vclient_")}
    taint = list(dict.fromkeys(I1.taints)) + ["specification: " + t for t in dict.fromkeys(I2.taints)]
    r.notes += ["analysis incomplete: %s" % t for t in taint[:4]]
    if only == "integer":
        r.frames = I1.n_ints
        if not I1.n_ints:
            return r
    A1, A2 = or_(*[c for c, k, w in ab1]), or_(*[c for c, k, w in ab2])
    items = []
    for cond, q, w in I1.shared_writes if only in (None, "frame") else ():
        items.append(Mismatch("memoised array", and_(pre, cond), "the array kept by the cache of %s is modified in place at %s;" % (q, w)))
    if only == "failure":
        # whatever must be rejected is rejected
        if A2 is not FALSE:
            r.frames += 1
            items.append(Pair("failure", and_(pre, A2), A1, TRUE))
        v1 = None
    elif ob.opts.get("aborts", True) and only != "frame":
        items.append(Pair("failure", pre, A1, A2))
    g = and_(pre, not_(A1), not_(A2))
    if not ob.opts.get("aborts", True) and only in (None, "integer", "real") and A1 is not FALSE and v2 is not None:
        # something must remain that is accepted
        if decide(and_(pre, not_(A2)), A1, TRUE, n, seed).status in ("identical", "agree"):
            bad(r, "failure", "every input is rejected; " + failure_detail(ab1, ab2), taint)
    if v1 is not None and v2 is not None:
        c = Cmp(I1, s1, I2, s2, ob.opts)
        if only != "frame":
            c.val("result", g, v1, v2)
        if ob.opts.get("frame", True) and only not in ("integer", "real"):
            for i, (x, y) in enumerate(zip(a1, a2)):
                if isinstance(x, Ref):
                    r.frames += 1
                    c.val("argument %d afterwards" % (i + 1), g, x, y)
        if ob.opts.get("effects") and only != "frame":
            f = ob.opts["effects"]
            c.seq("effects", g, [s for s in map(f, s1.heap[0].segs) if s], [s for s in map(f, s2.heap[0].segs) if s])
        items += c.out
    elif (v1 is None) != (v2 is None) and not ob.opts.get("aborts", True) and only in (None, "integer", "real"):
        items.append(Mismatch("result", pre, "never returns" if v1 is None else "returns although it must fail"))
    for it in items:
        r.pairs += 1
        if isinstance(it, Mismatch):
            v = decide(it.guard, TRUE, FALSE, n, seed)
            if v.status == "differ":
                bad(r, it.path, it.msg + " " + v.detail.split(" at ")[-1][:300], taint)
            elif v.status == "undecided":
                r.undecided += 1
                r.notes.append("%s: undecided %s" % (it.path, v.detail))
            else:
                r.agree += 1
            continue
        v = decide(it.guard, it.a, it.b, n, seed)
        r.interps += v.n
        if v.status == "identical":
            r.identical += 1
        elif v.status == "agree":
            r.agree += 1
        elif v.status == "vacuous":
            if it.path == "result" or it.path == "failure":
                r.notes.append("%s: %s" % (it.path, v.detail))
                if it.path == "failure":
                    r.status = "vacuous"
            r.agree += 1
        elif v.status == "differ":
            d = v.detail
            if it.path == "failure":
                d = failure_detail(ab1, ab2) + " " + d
            bad(r, it.path, d, taint)
        else:
            r.undecided += 1
            r.notes.append("%s: undecided, %s" % (it.path, v.detail))
    if r.violations:
        r.status = "violated"
    elif r.status == "held" and r.undecided:
        r.status = "undecided"
    elif r.status == "held" and taint:
        r.status = "held-incomplete"
    r.wall = time.time() - t0
    return r


def failure_detail(ab1, ab2):
    def f(ab):
        return ", ".join(sorted({"%s@%s" % (k, w) for c, k, w in ab})) or "none"
    return "fails differently (code: %s; specified: %s)" % (f(ab1)[:400], f(ab2)[:300])


def bad(r, path, msg, taint):
    if taint:
        r.undecided += 1
        r.notes.append("%s: possible difference not reported, analysis incomplete (%s): %s" % (path, taint[0], msg[:300]))
    else:
        r.violations.append((path, msg))
