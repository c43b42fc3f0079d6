"""Closed forms for loops.

A loop body is analysed once over a symbolic element.  Locations it changes are replaced by
placeholders standing for "the value before this iteration" until the set is stable; the
update of each location is then classified (sum, product, extremum, any/all, last write,
indexed store, append, keyed store) and expressed as one reduction over the iteration
domain.  Updates without a closed form become opaque terms, never a guess.
"""
import itertools
from .terms import *
from . import terms as tm
from .values import *
from .interp import Dead, State, Out, cond_seg, UnknownValue

_ph = itertools.count(1)


def ph_name():
    return "ph#%d" % next(_ph)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, S):
        return a.t is b.t and a.k == b.k
    if isinstance(a, St):
        return a.t is b.t
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Gt):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, AV):
        return same(a.c, b.c)
    if isinstance(a, ArrC):
        if len(a.dims) != len(b.dims) or a.k != b.k:
            return False
        m = {}
        for p, q in zip(a.dims, b.dims):
            if p != q:
                return False
            m.update(zip(q.vars, p.vars))
        return a.body is subst(b.body, m)
    if isinstance(a, ListC):
        return len(a.segs) == len(b.segs) and all(same_seg(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, (MapC, SetC)):
        m = {b.l: a.l, b.m: a.m}
        if a.has is not subst(b.has, m):
            return False
        if isinstance(a, MapC):
            if a.val is None or b.val is None:
                return a.val is b.val
            return same_val_under(a.val, b.val, m)
        return True
    if isinstance(a, B):
        return a == b
    if isinstance(a, BM):
        return a.fn is b.fn and same(a.self, b.self)
    return False


def same_val_under(x, y, m):
    if isinstance(x, AV) and isinstance(y, AV):
        d = {}
        if len(x.c.dims) != len(y.c.dims):
            return False
        for p, q in zip(x.c.dims, y.c.dims):
            if p.key is not dom_subst(q, m).key:
                return False
            d.update(zip(q.vars, p.vars))
        d.update(m)
        return x.c.body is subst(y.c.body, d)
    if isinstance(x, S) and isinstance(y, S):
        return x.t is subst(y.t, m)
    return False


def same_seg(x, y):
    if x is y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] == "i":
        return same(x[1], y[1])
    if x[0] == "ph":
        return x[1] == y[1]
    return False


def vmap(v, f):
    """map every term inside a value"""
    if isinstance(v, S):
        return S(f(v.t), v.k, v.np)
    if isinstance(v, St):
        return St(f(v.t))
    if isinstance(v, Tup):
        return Tup([vmap(x, f) for x in v.items])
    if isinstance(v, AV):
        return AV(cmap(v.c, f))
    if isinstance(v, ArrC):
        return cmap(v, f)
    if isinstance(v, Gt):
        return Gt(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Cell):
        return Cell(v.mref, f(v.l), f(v.m))
    if isinstance(v, Eff):
        return Eff(v.what, [vmap(x, f) for x in v.args], {k: vmap(x, f) for k, x in v.kw.items()}, v.line, v.where)
    if isinstance(v, It):
        return It([smap(s, f) for s in v.segs], v.src)
    if isinstance(v, ExtO) and isinstance(v.key, tuple):
        return ExtO(v.path, tuple(f(k) if isinstance(k, T) else k for k in v.key))
    if isinstance(v, Partial) and isinstance(v.fn, str):
        return Partial(v.fn, [f(a) if isinstance(a, T) else (dmap(a, f) if isinstance(a, Dom) else vmap(a, f) if isinstance(a, V) else a)
                              for a in v.args], v.kw)
    if isinstance(v, BM):
        return BM(vmap(v.self, f), v.fn)
    return v


def dmap(d, f):
    nd = Dom(d.kind, d.vars, [f(x) for x in d.los], [f(x) for x in d.his], f(d.cond))
    return nd


def cmap(c, f):
    return ArrC([dmap(d, f) for d in c.dims], f(c.body), c.k)


def smap(s, f):
    if s[0] == "i":
        return ("i", vmap(s[1], f))
    if s[0] == "d":
        return ("d", dmap(s[1], f), vmap(s[2], f))
    if s[0] == "g":
        return ("g", dmap(s[1], f), tuple(smap(x, f) for x in s[2]))
    return s


# ------------------------------------------------------------------ location access
def heap_get(h, key):
    k = key[0]
    c = h.get(key[1])
    if c is None:
        return None
    if k == "var":
        return c.vars.get(key[2])
    if k == "attr":
        return c.attrs.get(key[2])
    if k == "item":
        return c.items.get(key[2])
    return c


def heap_set(h, key, v):
    k = key[0]
    c = h[key[1]]
    if k == "var":
        d = dict(c.vars)
        d[key[2]] = v
        h[key[1]] = FrameC(d, c.parent, c.mod)
    elif k == "attr":
        d = dict(c.attrs)
        d[key[2]] = v
        h[key[1]] = ObjC(c.cls, d)
    elif k == "item":
        d = dict(c.items)
        d[key[2]] = v
        h[key[1]] = DictC(d)
    else:
        h[key[1]] = v


def changed(h0, h1):
    out = []
    for i, c0 in h0.items():
        c1 = h1.get(i)
        if c1 is c0 or c1 is None:
            continue
        if isinstance(c0, FrameC):
            for n in {**c0.vars, **c1.vars}:
                a, b = c0.vars.get(n), c1.vars.get(n)
                if b is None or (a is not None and same(a, b)):
                    continue
                out.append(("var", i, n))
        elif isinstance(c0, ObjC):
            for n in {**c0.attrs, **c1.attrs}:
                a, b = c0.attrs.get(n), c1.attrs.get(n)
                if b is None or (a is not None and same(a, b)):
                    continue
                out.append(("attr", i, n))
        elif isinstance(c0, DictC) and isinstance(c1, DictC):
            for n in {**c0.items, **c1.items}:
                a, b = c0.items.get(n), c1.items.get(n)
                if b is None or (a is not None and same(a, b)):
                    continue
                out.append(("item", i, n))
        elif not same(c0, c1):
            out.append(("obj", i))
    return out


# ------------------------------------------------------------------ update classification
def atoms_named(t, name, acc, seen):
    if t in seen or name not in t.fvs:
        return acc
    seen.add(t)
    if t.op == "f" and t.args[0] == name:
        acc.append(t)
    for a in t.args:
        if isinstance(a, T):
            atoms_named(a, name, acc, seen)
    return acc


def align(t, name, idx, cond):
    """rewrite reads P(e) to P(idx) where the path condition forces e == idx"""
    if name not in t.fvs:
        return t
    if t.op == "ite":
        c = t.args[0]
        return ite(align(c, name, idx, cond), align(t.args[1], name, idx, and_(cond, c)), align(t.args[2], name, idx, and_(cond, not_(c))))
    for a in atoms_named(t, name, [], set()):
        if a.args[1:] == tuple(idx):
            continue
        if all(x is y or simp_under(eq(x, y), cond) is TRUE for x, y in zip(a.args[1:], idx)):
            P = atom(name, *idx)
            t = subst_atoms(t, name, lambda *e, a=a: P if tuple(e) == a.args[1:] else atom(name, *e))
    return t


def delta(t, P, name, op):
    """t as P+d / P*d with the gates pushed inwards; None if impossible"""
    if t is P:
        return ZERO if op == "add" else ONE
    if name not in t.fvs:
        return None
    if t.op == "ite" and name not in t.args[0].fvs:
        a, b = delta(t.args[1], P, name, op), delta(t.args[2], P, name, op)
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    d = sub(t, P) if op == "add" else div(t, P)
    return d if name not in d.fvs else None


def writes(t, P, name):
    """t as ite(c, x, P): (c, x) with c, x free of P; None otherwise"""
    if t is P:
        return FALSE, None
    if name not in t.fvs:
        return TRUE, t
    if t.op == "ite" and name not in t.args[0].fvs:
        a, b = writes(t.args[1], P, name), writes(t.args[2], P, name)
        if a is None or b is None:
            return None
        c = t.args[0]
        ca, cb = and_(c, a[0]), and_(not_(c), b[0])
        x = b[1] if a[1] is None else a[1] if b[1] is None else ite(c, a[1], b[1])
        return or_(ca, cb), x
    return None


def extremum(t, P, name, op):
    """t as ite(c, op(P, x), P): (c, x)"""
    if t is P:
        return FALSE, None
    if name not in t.fvs:
        return None
    if t.op == op and P in t.args:
        rest = [a for a in t.args if a is not P]
        x = maxmin(op, *rest) if len(rest) > 1 else rest[0]
        return (TRUE, x) if name not in x.fvs else None
    if t.op == "ite":
        c, a, b = t.args
        if name not in c.fvs:
            x, y = extremum(a, P, name, op), extremum(b, P, name, op)
            if x is None or y is None:
                return None
            cc = or_(and_(c, x[0]), and_(not_(c), y[0]))
            v = y[1] if x[1] is None else x[1] if y[1] is None else ite(c, x[1], y[1])
            return cc, v
        for cond, new, old in ((c, a, b), (not_(c), b, a)):
            if old is P and name not in new.fvs:
                better = (lt(P, new), le(P, new)) if op == "max" else (lt(new, P), le(new, P))
                if cond in better:
                    return TRUE, new
    return None


class Form:
    def __init__(self, kind, c=TRUE, x=None):
        self.kind, self.c, self.x = kind, c, x


def classify(R, P, name):
    if R is P:
        return Form("same")
    if name not in R.fvs:
        return Form("last", TRUE, R)
    if R.sort == "b":
        w = writes(R, P, name)
        if w:
            return Form("last", w[0], w[1])
        if R.op == "or" and P in R.args:
            x = or_(*[a for a in R.args if a is not P])
            if name not in x.fvs:
                return Form("or", TRUE, x)
        if R.op == "and" and P in R.args:
            x = and_(*[a for a in R.args if a is not P])
            if name not in x.fvs:
                return Form("and", TRUE, x)
        # P or ite-mixed: evaluate both cofactors
        hi = tm.subst_atoms(R, name, lambda *e: TRUE if tuple(e) == P.args[1:] else atom(name, *e))
        lo = tm.subst_atoms(R, name, lambda *e: FALSE if tuple(e) == P.args[1:] else atom(name, *e))
        if name not in hi.fvs and name not in lo.fvs:
            if hi is TRUE:
                return Form("or", TRUE, lo)
            if lo is FALSE:
                return Form("and", TRUE, hi)
            keep = and_(hi, not_(lo))
            return Form("last", not_(keep), lo) if and_(not_(hi), lo) is FALSE else None
        return None
    w = writes(R, P, name)
    if w:
        return Form("last", w[0], w[1])
    if R.sort in "irc":
        for op in ("max", "min"):
            e = extremum(R, P, name, op)
            if e:
                return Form(op, e[0], e[1])
        d = delta(R, P, name, "add")
        if d is not None:
            return Form("add", TRUE, d)
        d = delta(R, P, name, "mul")
        if d is not None:
            return Form("mul", TRUE, d)
    return None


def once(R, P, name, dom):
    """update of a location that at most one iteration touches: (c, x) with x depending on the old value"""
    def rec(t):
        if t is P:
            return FALSE, None
        if t.op == "ite" and name not in t.args[0].fvs:
            a, b = rec(t.args[1]), rec(t.args[2])
            c = t.args[0]
            x = b[1] if a[1] is None else a[1] if b[1] is None else ite(c, a[1], b[1])
            return or_(and_(c, a[0]), and_(not_(c), b[0])), x
        return TRUE, t
    c, x = rec(R)
    if c is TRUE or c is FALSE:
        return None
    for a in atoms_named(x, name, [], set()):
        if a is not P:
            return None
    if name in c.fvs:
        return None
    Dc = dom.with_cond(c)
    for v in dom.vars:
        if bind("pick", Dc, v).op == "pick":
            return None
    return c, x


def evaluate(form, init, D, m):
    """value after all iterations of domain D (m: loop variables -> D's variables)"""
    k = form.kind
    if k == "same" or D is None:
        return init
    if k == "opaque":
        return opaque(form.x, init.sort if init is not None else "c", *[v for v in m.values()])
    x = subst(form.x, m)
    c = subst(form.c, m)
    if k == "add":
        return add(init, bind("sum", D, x))
    if k == "mul":
        return mul(init, bind("prod", D, x))
    if k == "or":
        return or_(init, tany(D, x))
    if k == "and":
        return and_(init, not_(tany(D, not_(x))))
    Dc = D.with_cond(c)
    some = tany(Dc, TRUE)
    if k in ("max", "min"):
        b = bind("bmax" if k == "max" else "bmin", Dc, x)
        return ite(some, maxmin(k, init, b), init)
    if k == "last":
        v = bind("pick", Dc, x)
        return v if init is None else ite(some, v, init)
    if k == "once":
        x = tm.subst_atoms(x, form.name, lambda *e: init)
        return ite(some, bind("pick", Dc, x), init)
    raise Unsupported("form")


def earlier(dom, exec_cond=TRUE):
    """(domain of iterations before the current one, variable map); None when empty; raises for unordered"""
    if not dom.vars:
        return None
    d = dom.inst()
    m = dict(zip(dom.vars, d.vars))
    if dom.kind == "u":
        return d.with_cond(fn("before", *d.vars, *dom.vars)), m
    if dom.kind == "r" and len(d.vars) == 1:
        return Dom("r", d.vars, d.los, (dom.vars[0],), d.cond), m
    before = FALSE
    pre = TRUE
    for a, b in zip(d.vars, dom.vars):
        before = or_(before, and_(pre, lt(a, b)))
        pre = and_(pre, eq(a, b))
    return d.with_cond(before), m


class Slot:
    def __init__(self, name, idx, init, res=None):
        self.name, self.idx, self.init, self.res, self.form = name, tuple(idx), init, res, None

    def P(self):
        return atom(self.name, *self.idx)


class Loop:
    def __init__(self, I, dom):
        self.I, self.dom, self.slots = I, dom, {}

    def resolve(self, t):
        """replace solved placeholders by their value before the current iteration"""
        for _ in range(8):
            names = [n for n in t.fvs if isinstance(n, str) and n in self.slots and self.slots[n].form is not None]
            if not names:
                return t
            for n in names:
                s = self.slots[n]

                def at(*e, s=s):
                    mm = dict(zip(s.idx, e))
                    init = subst(s.init, mm) if s.init is not None else None
                    if s.form.kind == "same":
                        return init
                    if s.form.kind == "opaque":
                        return opaque(s.form.x, (s.init if s.init is not None else s.res).sort, *e)
                    try:
                        ed = earlier(self.dom)
                    except Unsupported as ex:
                        self.I.taint(str(ex))
                        return opaque(str(ex), (s.init if s.init is not None else s.res).sort, *e)
                    if ed is None:
                        return init if init is not None else opaque("undefined", s.res.sort)
                    D, m = ed
                    both = {**m, **mm}
                    f = Form(s.form.kind, subst(s.form.c, both), subst(s.form.x, both))
                    f.name = s.name
                    if init is None and f.kind == "last":
                        return bind("pick", D.with_cond(f.c), f.x)
                    return evaluate(f, init, D, {})
                t = subst_atoms(t, n, at)
        return t

    def unresolved(self, t):
        return any(isinstance(n, str) and n in self.slots for n in t.fvs)

    def solve(self):
        todo = list(self.slots.values())
        while todo:
            prog = False
            for s in list(todo):
                others = [n for n in s.res.fvs if isinstance(n, str) and n in self.slots and n != s.name and self.slots[n].form is None]
                if others:
                    continue
                R = s.res
                R = align(R, s.name, s.idx, TRUE)
                f = classify(R, s.P(), s.name)
                if f is None and s.init is not None:
                    o = once(R, s.P(), s.name, self.dom)
                    if o is not None:
                        f = Form("once", o[0], o[1])
                        f.name = s.name
                        s.form = f
                        todo.remove(s)
                        prog = True
                        rest = [n for n in f.x.fvs | f.c.fvs if isinstance(n, str) and n in self.slots and n != s.name]
                        if rest:
                            s.form = Form("opaque", TRUE, "loop-carried value without closed form")
                        continue
                if f is None or (f.x is not None and s.name in f.x.fvs):
                    f = Form("opaque", TRUE, "loop-carried value without closed form")
                elif f.kind != "same":
                    s.form = Form("same")     # guard against self reference while resolving
                    f = Form(f.kind, self.resolve(f.c), self.resolve(f.x) if f.x is not None else None)
                s.form = f
                todo.remove(s)
                prog = True
            if not prog:
                # mutually dependent updates: try one whose own update does not read the others' placeholder
                for s in todo:
                    s.form = Form("opaque", TRUE, "mutually dependent loop-carried values")
                todo = []

    def final(self, s, idx=None):
        init = s.init
        if s.form.kind == "opaque":
            return opaque(s.form.x, (s.init if s.init is not None else s.res).sort, *s.idx)
        d = self.dom.inst()
        m = dict(zip(self.dom.vars, d.vars))
        return evaluate(s.form, init, d, m)


# ------------------------------------------------------------------ placeholders
def sort_of(k):
    return {"b": "b", "i": "i", "f": "r", "c": "c"}[k]


class PhRec:
    """how a location is represented while its loop is analysed"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def new_ph(sort):
    n = ph_name()
    declare(n, sort, ph=True)
    return n


def make_ph(I, init, res, st_init, st_res):
    """(placeholder value, record) for a location with value init before and res after one trial iteration"""
    if isinstance(init, S) and isinstance(res, S):
        k = init.k
        if "bifc".index(res.k) > "bifc".index(k):
            k = res.k
        n = new_ph(sort_of(k))
        return S(atom(n), k, init.np and res.np), PhRec("S", name=n, k=k, init=tm._bool(init.t) if k == "b" else num(init.t))
    if isinstance(init, St) and isinstance(res, St):
        n = new_ph("s")
        return St(atom(n)), PhRec("St", name=n, init=init.t)
    if isinstance(init, ArrC) and isinstance(res, ArrC) and dims_eq(init, res):
        return arr_ph(init, res)
    if isinstance(init, ListC) and isinstance(res, ListC):
        if len(init.segs) == len(res.segs) > 0 and all(x[0] == "i" for x in init.segs + res.segs):
            v, rec = make_ph(I, Tup([x[1] for x in init.segs]), Tup([x[1] for x in res.segs]), st_init, st_res)
            if v is not None:   # a list of fixed length whose items are replaced
                return v, PhRec("fixlist", tup=rec)
        n = ph_name()
        return ListC([("ph", n)]), PhRec("list", name=n, init=init)
    if isinstance(init, (MapC, DictC)) and isinstance(res, MapC) and (isinstance(init, MapC) or not init.items):
        l, m = res.l, res.m
        hn = new_ph("b")
        ini_has = subst(init.has, {init.l: l, init.m: m}) if isinstance(init, MapC) else FALSE
        ini_val = I.val_subst(init.val, {init.l: l, init.m: m}) if isinstance(init, MapC) and init.val is not None else None
        rv = res.val
        if isinstance(rv, AV):
            vn = new_ph("c" if rv.c.k == "c" else sort_of(rv.c.k))
            dims = [d.inst() for d in rv.c.dims]
            idx = [v for d in dims for v in d.vars]
            val = AV(ArrC(dims, atom(vn, l, m, *idx), rv.c.k))
        elif isinstance(rv, S):
            vn = new_ph(sort_of(rv.k))
            dims, idx = None, []
            val = S(atom(vn, l, m), rv.k, rv.np)
        else:
            return None, PhRec("un")
        return (MapC(l, m, atom(hn, l, m), val, init.alias if isinstance(init, MapC) else frozenset()),
                PhRec("map", hn=hn, vn=vn, l=l, m=m, idx=idx, dims=dims, init=init, ih=ini_has, iv=ini_val))
    if isinstance(init, (SetC, ListC)) and isinstance(res, SetC):
        l, m = res.l, res.m
        if isinstance(init, ListC):
            if init.segs:
                return None, PhRec("un")
            ih = FALSE
        else:
            ih = subst(init.has, {init.l: l, init.m: m})
        hn = new_ph("b")
        return SetC(l, m, atom(hn, l, m)), PhRec("set", hn=hn, l=l, m=m, ih=ih)
    if isinstance(init, Tup) and isinstance(res, Tup) and len(init.items) == len(res.items):
        parts = [(x, PhRec("const", val=x)) if same(x, y) else make_ph(I, x, y, st_init, st_res) for x, y in zip(init.items, res.items)]
        if all(p[0] is not None for p in parts):
            return Tup([p[0] for p in parts]), PhRec("tup", parts=[p[1] for p in parts])
    if isinstance(init, (Ref, View, AV, Cell, Gt)) and isinstance(res, (Ref, View, AV, Cell, Gt)):
        a, b = arr_content(I, init, st_init), arr_content(I, res, st_res)
        if isinstance(a, ArrC) and isinstance(b, ArrC) and dims_eq(a, b):
            v, r = arr_ph(a, b)
            r.kind = "avar"
            r.orig = init
            return AV(v), r
    return None, PhRec("un")


def arr_content(I, v, st):
    """array denoted by a value (gated arrays of one shape merged), or None"""
    if isinstance(v, Gt):
        a, b = arr_content(I, v.a, st), arr_content(I, v.b, st)
        if isinstance(a, ArrC) and isinstance(b, ArrC):
            return I.merge_arr(v.c, a, b)
        return None
    if isinstance(v, (Ref, View, AV, Cell)):
        return I.content(v, st)
    return None


def dims_eq(a, b):
    return len(a.dims) == len(b.dims) and all(p == q for p, q in zip(a.dims, b.dims))


def arr_ph(init, res):
    k = init.k if "bifc".index(init.k) >= "bifc".index(res.k) else res.k
    c = init.fresh()
    n = new_ph(sort_of(k))
    idx = [v for d in c.dims for v in d.vars]
    return ArrC(c.dims, atom(n, *idx), k), PhRec("arr", name=n, k=k, dims=c.dims, idx=idx,
                                                  init=tm._bool(c.body) if k == "b" else num(c.body))


def map_index(m, c):
    d = {}
    for p, q in zip(c.dims, m):
        d.update(zip(p.vars, q.vars))
    return d


def collect(L, I, rec, v, st, marker):
    """register the slots of a location from its value after the iteration; False if it cannot be described"""
    if rec.kind == "const":
        return same(v, rec.val)
    if rec.kind == "S":
        if not isinstance(v, S):
            return False
        L.slots[rec.name] = Slot(rec.name, (), rec.init, tm._bool(v.t) if rec.k == "b" else num(v.t))
        rec.k = rec.k if "bifc".index(rec.k) >= "bifc".index(v.k) else v.k
        return True
    if rec.kind == "St":
        if not isinstance(v, St):
            return False
        L.slots[rec.name] = Slot(rec.name, (), rec.init, v.t)
        return True
    if rec.kind in ("arr", "avar"):
        c = v if isinstance(v, ArrC) else arr_content(I, v, st)
        if not isinstance(c, ArrC) or len(c.dims) != len(rec.dims) or any(p != q for p, q in zip(c.dims, rec.dims)):
            return False
        body = subst(c.body, map_index(rec.dims, c))
        L.slots[rec.name] = Slot(rec.name, rec.idx, rec.init, tm._bool(body) if rec.k == "b" else num(body))
        return True
    if rec.kind == "map":
        if not isinstance(v, MapC) or v.val is None:
            return False
        m = {v.l: rec.l, v.m: rec.m}
        L.slots[rec.hn] = Slot(rec.hn, (rec.l, rec.m), rec.ih, subst(v.has, m))
        val = I.val_subst(v.val, m)
        isb = SIGS[rec.vn]["sort"] == "b"
        cast = tm._bool if isb else num
        if isb and any((x.k if isinstance(x, S) else x.c.k) != "b" for x in (val, rec.iv) if isinstance(x, (S, AV))):
            return False
        if rec.dims is None:
            if not isinstance(val, S):
                return False
            res = cast(val.t)
            init = cast(rec.iv.t) if isinstance(rec.iv, S) else None
        else:
            if not isinstance(val, AV) or len(val.c.dims) != len(rec.dims) or any(p != q for p, q in zip(val.c.dims, rec.dims)):
                return False
            res = cast(subst(val.c.body, map_index(rec.dims, val.c)))
            init = None
            if isinstance(rec.iv, AV) and len(rec.iv.c.dims) == len(rec.dims):
                if rec.ih is not FALSE and any(p != q for p, q in zip(rec.iv.c.dims, rec.dims)):
                    return False
                init = cast(subst(rec.iv.c.body, map_index(rec.dims, rec.iv.c)))
        if rec.ih is FALSE:
            init = None
        rec.alias = frozenset(a for a in v.alias if a < marker)
        rec.val = val
        L.slots[rec.vn] = Slot(rec.vn, (rec.l, rec.m) + tuple(rec.idx), init, res)
        return True
    if rec.kind == "set":
        if not isinstance(v, SetC):
            return False
        L.slots[rec.hn] = Slot(rec.hn, (rec.l, rec.m), rec.ih, subst(v.has, {v.l: rec.l, v.m: rec.m}))
        return True
    if rec.kind == "tup":
        if not isinstance(v, Tup) or len(v.items) != len(rec.parts):
            return False
        return all([collect(L, I, r, x, st, marker) for r, x in zip(rec.parts, v.items)])
    if rec.kind == "fixlist":
        return isinstance(v, ListC) and all(x[0] == "i" for x in v.segs) and collect(L, I, rec.tup, Tup([x[1] for x in v.segs]), st, marker)
    if rec.kind == "list":
        return isinstance(v, ListC) and bool(v.segs) and v.segs[0] == ("ph", rec.name) and not any(s[0] == "ph" for s in v.segs[1:])
    return False


def allocates(rec):
    return (rec.kind == "avar" or rec.kind == "tup" and any(allocates(p) for p in rec.parts)
            or rec.kind == "fixlist" and allocates(rec.tup))


def start_value(I, ph, rec, st):
    """what the location holds when an iteration begins"""
    if rec.kind == "avar":
        return I.new(st, ph.c if isinstance(ph, AV) else ph)
    if rec.kind == "tup":
        return Tup([start_value(I, x, p, st) for x, p in zip(ph.items, rec.parts)])
    if rec.kind == "fixlist":
        return ListC([("i", x) for x in start_value(I, ph, rec.tup, st).items])
    return ph


def rebuild_loc(L, I, rec, v, st, marker, D, m):
    """value of a location after the loop"""
    if rec.kind == "const":
        return rec.val
    if rec.kind == "S":
        t = L.final(L.slots[rec.name])
        return S(t, rec.k, isinstance(v, S) and v.np)
    if rec.kind == "St":
        return St(L.final(L.slots[rec.name]))
    if rec.kind == "arr":
        return ArrC(rec.dims, L.final(L.slots[rec.name]), rec.k)
    if rec.kind == "avar":
        s = L.slots[rec.name]
        if s.form.kind == "same":
            return rec.orig
        return I.new(st, ArrC(rec.dims, L.final(s), rec.k))
    if rec.kind == "map":
        has, val = L.final(L.slots[rec.hn]), L.final(L.slots[rec.vn])
        if rec.dims is None:
            nv = S(val, rec.val.k, rec.val.np)
        else:
            nv = AV(ArrC(rec.dims, val, rec.val.c.k))
        return MapC(rec.l, rec.m, has, nv, rec.alias)
    if rec.kind == "set":
        return SetC(rec.l, rec.m, L.final(L.slots[rec.hn]))
    if rec.kind == "tup":
        return Tup([rebuild_loc(L, I, r, x, st, marker, D, m) for r, x in zip(rec.parts, v.items)])
    if rec.kind == "fixlist":
        t = rebuild_loc(L, I, rec.tup, Tup([x[1] for x in v.segs]), st, marker, D, m)
        return ListC([("i", x) for x in t.items])
    if rec.kind == "list":
        new = [smap_freeze(I, s, st, marker) for s in v.segs[1:]]
        new = [smap(s, L.resolve) for s in new]
        new = [smap(s, lambda t: subst(t, m)) for s in new]
        return ListC(rec.init.segs + tuple(wrap_segs(D, new)))
    raise Unsupported("rebuild")


def smap_freeze(I, s, st, marker):
    if s[0] == "i":
        return ("i", I.freeze(s[1], st, marker))
    if s[0] == "d":
        return ("d", s[1], I.freeze(s[2], st, marker))
    if s[0] == "g":
        return ("g", s[1], tuple(smap_freeze(I, x, st, marker) for x in s[2]))
    return s


def wrap_segs(D, segs):
    if not segs:
        return []
    if D.cond is FALSE:
        return []
    if len(segs) == 1:
        s = segs[0]
        if s[0] == "i":
            return [("d", D, s[1])]
        if s[0] == "d":
            if not s[1].vars:
                return [("d", D.with_cond(s[1].cond), s[2])]
            if not D.vars:
                return [("d", s[1].with_cond(D.cond), s[2])]
            p = D.product(s[1])
            if p is not None:
                return [("d", p, s[2])]
        if s[0] == "g" and not D.vars:
            return [("g", s[1].with_cond(D.cond), s[2])]
    return [("g", D, tuple(segs))]


def last_value(I, v, D, m, some, L):
    """value of a location that every iteration overwrites"""
    def pick(t):
        return bind("pick", D, subst(L.resolve(t), m))
    if isinstance(v, (S, St, AV, Tup)):
        if contains_ref(v):
            return Un("object assigned in a loop")
        if isinstance(v, AV) and any(vid(x) in h.fvs for d in v.c.dims for h in d.his for x in L.dom.vars):
            return Un("array of varying shape assigned in a loop")
        return vmap(v, pick)
    if isinstance(v, (B, FnV, ModV, ClsV, NoneV)):
        return v
    return Un("object assigned in a loop")


def contains_ref(v):
    if isinstance(v, Tup):
        return any(contains_ref(x) for x in v.items)
    return not isinstance(v, (S, St, AV, B, NoneV, FnV, ModV, ClsV))


# ------------------------------------------------------------------ the loop itself
def run_body(I, seg, dom, step, st, m):
    """one symbolic iteration on st; returns (Out with merged state, exits)"""
    if seg[0] == "d":
        val = I.val_subst(seg[2], m)
        try:
            o = step(I.thaw(val, st), st)
        except Dead:
            o = Out(None)
    else:
        segs = [map_seg_values(I, s, m) for s in seg[2]]
        try:
            o = I.run_loop(segs, step, st)
        except Dead:
            o = Out(None)
    return o


def map_seg_values(I, s, m):
    from .interp import seg_map
    return seg_map(s, lambda x: I.val_subst(x, m), m)


class NeedUnroll(BaseException):
    """the body needs the concrete loop index"""


def summarise(I, seg, step, st):
    dom = seg[1]
    if not (dom.kind == "r" and len(dom.vars) == 1 and isc(dom.los[0]) and isc(dom.his[0])
            and cval(dom.his[0]) - cval(dom.los[0]) <= 64 and dom.cond is TRUE):
        old, I.unrollable = I.unrollable, 0
        try:
            return _summarise(I, seg, step, st)
        finally:
            I.unrollable = old
    nab, ntaint, cur, stack, trying = len(I.aborts), len(I.taints), I.cur, list(I.stack), I.trying
    I.unrollable += 1
    try:
        return _summarise(I, seg, step, st)
    except NeedUnroll:
        pass
    finally:
        I.unrollable -= 1
    del I.aborts[nab:]
    del I.taints[ntaint:]
    I.cur, I.trying = cur, trying
    I.stack[:] = stack
    if seg[0] != "d":
        raise Unsupported("unrolling a %r segment" % seg[0])
    segs = [("i", I.val_subst(seg[2], {dom.vars[0]: const(i)})) for i in range(int(cval(dom.los[0])), int(cval(dom.his[0])))]
    o = I.run_loop(segs, step, st)
    if o.st is not None and o.st is not st:
        st.take(o.st)
        o.st = st
    return Out(o.st, o.rets)


def _summarise(I, seg, step, st):
    import itertools as it
    from .interp import _ids
    dom0 = seg[1]
    dom = dom0.inst()
    m0 = dict(zip(dom0.vars, dom.vars))
    if dom.cond is FALSE:
        return Out(st)
    base = st.heap
    pc0, br0 = st.pc, st.br
    pcin = and_(pc0, dom.cond)
    phs = {}          # location -> (placeholder, record)
    nab = len(I.aborts)
    ntaint = len(I.taints)
    result = None
    for round_ in range(7):
        del I.aborts[nab:]
        del I.taints[ntaint:]
        marker = next(_ids)
        h = dict(base)
        s2 = State(h, pcin, TRUE)
        for key, (ph, rec) in phs.items():
            if ph is None:
                if rec.kind == "un":
                    heap_set(h, key, Un("value carried around a loop"))
                continue
            heap_set(h, key, start_value(I, ph, rec, s2))
        start = dict(h)
        o = run_body(I, seg, dom, step, s2, m0)
        # exits and the normal end of the iteration form one state
        fin = o.st
        for cs in o.conts:
            fin = cs if fin is None else I.merge(cs.br, cs, fin)
        exits = [(b.br, None, b) for b in o.brks] + [(c, v, s) for c, v, s in o.rets]
        for c, v, s in exits:
            fin = s if fin is None else I.merge(c, s, fin)
        if fin is None:
            # every iteration fails
            mine = I.aborts[nab:]
            del I.aborts[nab:]
            some = tany(dom, TRUE)
            for c, kind, w in mine:
                I.aborts.append((tany(dom, c), kind, w))
            if some is TRUE:
                raise Dead()
            st.pc = and_(pc0, not_(some))
            return Out(st)
        ch = changed(start, fin.heap)
        new = []
        for key in ch:
            if key in phs:
                continue
            init, res = heap_get(base, key), heap_get(fin.heap, key)
            if init is None:
                phs[key] = (None, PhRec("temp"))
                continue
            # values of the trial that mention loop variables only matter for their kind
            ph, rec = make_ph(I, init, res, State(base), fin)
            if ph is None and rec.kind == "un":
                rec.init = init
            phs[key] = (ph, rec)
            new.append(key)
        # a scalar may turn out to be of a wider kind only in a later round
        for key, (ph, rec) in list(phs.items()):
            if rec.kind == "S":
                v = heap_get(fin.heap, key)
                if isinstance(v, S) and "bifc".index(v.k) > "bifc".index(rec.k):
                    phs[key] = make_ph(I, heap_get(base, key), v, State(base), fin)
                    new.append(key)
        if not new:
            result = (o, fin, exits, marker)
            break
    if result is None:
        raise Unsupported("loop does not stabilise")
    o, fin, exits, marker = result
    L = Loop(I, dom)
    bad = []
    for key, (ph, rec) in phs.items():
        if rec.kind in ("temp", "un"):
            continue
        v = heap_get(fin.heap, key)
        if not collect(L, I, rec, v, fin, marker):
            bad.append(key)
    # iterations after an exit are not executed
    ex = FALSE
    for c, v, s in exits:
        ex = or_(ex, c)
    if ex is not FALSE:
        if L.unresolved(ex):
            # only flags whose own update does not depend on leaving early
            L.solve()
            ex = L.resolve(ex)
            for s in L.slots.values():
                s.form = None
        if dom.vars:
            if dom.kind == "u":
                same_everywhere = all(rec.kind in ("temp",) for ph, rec in phs.values())
                if not same_everywhere:
                    I.taint("early exit from a loop over an unordered collection")
            else:
                D, m = earlier(dom)
                L.dom = dom.with_cond(not_(tany(D, subst(ex, m))))
    L.solve()
    Dn = L.dom.inst()
    m = dict(zip(L.dom.vars, Dn.vars))
    some = tany(Dn, TRUE)
    # failures inside the body happen for some executed element
    mine = I.aborts[nab:]
    del I.aborts[nab:]
    pc = pc0
    for c, kind, w in mine:
        c = L.resolve(c)
        c = and_(*[x for x in conjuncts(c) if x not in set(conjuncts(dom.cond)) or not dom.vars]) if False else c
        c = tany(L.dom, c)
        if c is not FALSE:
            I.aborts.append((c, kind, w))
            pc = and_(pc, not_(c))
    out = State(dict(base), pc, br0)
    for i, c in fin.heap.items():
        if i not in base:
            out.heap[i] = c
    for key, (ph, rec) in phs.items():
        v = heap_get(fin.heap, key)
        if key in bad:
            I.taint("loop update without a closed form (%s)" % (key[0],))
            heap_set(out.heap, key, unknown_like(I, heap_get(base, key)))
            continue
        if rec.kind in ("temp", "un"):
            init = heap_get(base, key)
            nv = last_value(I, I.freeze(v, fin, marker), Dn, m, some, L)
            nv = I.thaw(nv, out)
            if rec.kind == "un" and key[0] == "obj":
                I.taint("loop update of a container without a closed form")
                nv = unknown_like(I, init)
            elif some is not TRUE:
                nv = Gt(some, nv, init if init is not None else Un("undefined before the loop"))
                if isinstance(nv.a, Un) and isinstance(nv.b, Un):
                    nv = nv.a
                elif init is not None and isinstance(nv.a, (S, St)) and type(nv.a) is type(nv.b):
                    nv = I.merge_val(some, nv.a, nv.b)
            heap_set(out.heap, key, nv)
            continue
        heap_set(out.heap, key, rebuild_loc(L, I, rec, v, out if allocates(rec) else fin, marker, Dn, m))
    rets = []
    rs = [(c, v, s) for c, v, s in o.rets]
    if rs:
        # value of the first exiting iteration
        cc = FALSE
        val = None
        for c, v, s in rs[::-1]:
            val = I.freeze(v, s, marker) if val is None else I.merge_val(c, I.freeze(v, s, marker), val)
            cc = or_(cc, c)
        cc = L.resolve(cc)
        De = L.dom.with_cond(cc)
        d2 = De.inst()
        m2 = dict(zip(De.vars, d2.vars))
        happened = tany(d2, TRUE)
        if contains_ref(val) and not isinstance(val, Gt):
            rv = val if isinstance(val, Ref) and val.id < marker else Un("object returned from a loop")
        else:
            rv = gate_map(val, lambda t: bind("first", d2, subst(L.resolve(t), m2)))
        rst = out.fork()
        rst.pc = and_(pc, happened)
        rst.br = and_(br0, happened)
        rv = I.thaw(rv, rst)
        rets.append((rst.br, rv, rst))
        out.pc = and_(out.pc, not_(happened))
        out.br = and_(out.br, not_(happened))
        if happened is TRUE:
            return Out(None, rets)
    # the caller keeps using its own state object
    st.heap, st.pc, st.br = out.heap, out.pc, out.br
    return Out(st, rets)


def gate_map(v, f):
    if isinstance(v, Gt):
        return Gt(f(v.c), gate_map(v.a, f), gate_map(v.b, f))
    if isinstance(v, Tup):
        return Tup([gate_map(x, f) for x in v.items])
    if isinstance(v, (S, St, AV)):
        return vmap(v, f)
    return v


def unknown_like(I, c):
    if isinstance(c, S):
        return S(opaque("loop-carried value", c.t.sort), c.k, c.np)
    if isinstance(c, ArrC):
        return ArrC(c.dims, opaque("loop-carried array", "c" if c.k == "c" else "b" if c.k == "b" else "r"), c.k)
    if isinstance(c, MapC):
        return MapC(c.l, c.m, opaque("loop-carried map", "b", c.l, c.m), I.opaque_val(c.val, "loop-carried map") if c.val is not None else None, c.alias)
    if isinstance(c, SetC):
        return SetC(c.l, c.m, opaque("loop-carried set", "b", c.l, c.m))
    if isinstance(c, (ListC, DictC, ObjC, FrameC)):
        return c
    return Un("loop-carried value")


def counter_loop(I, s, st, fid):
    """while loop driven by an integer counter compared with a loop-invariant bound"""
    import ast
    names = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)]
    base = st.heap
    nab, ntaint = len(I.aborts), len(I.taints)
    never = False
    for n in names:
        v = None
        try:
            v = I.lookup(n, st, fid)
        except Dead:
            continue
        if not (isinstance(v, S) and v.k == "i"):
            continue
        ph = new_ph("i")
        trial = State(dict(base), st.pc, TRUE)
        I.setvar(n, S(atom(ph), "i"), trial, fid)
        test = I.truth(I.ev(s.test, trial, fid), trial)
        o = I.exec_block(s.body, trial, fid)
        del I.aborts[nab:]
        del I.taints[ntaint:]
        if o.st is None:
            never = never or not (o.brks or o.conts or o.rets)
            continue
        after = I.lookup(n, o.st, fid)
        if not isinstance(after, S):
            continue
        step = sub(after.t, atom(ph))
        if not isc(step) or step is ZERO or o.brks or o.conts or o.rets:
            continue
        c = cval(step)
        # test must be  P <= b  or  P >= b  (linear in the placeholder)
        if test.op not in ("le0", "lt0"):
            continue
        e = test.args[0]
        k = sub(subst_atoms(e, ph, lambda: ONE), subst_atoms(e, ph, lambda: ZERO))
        if not isc(k):
            continue
        rest = subst_atoms(e, ph, lambda: v.t)
        slope = cval(k) * c
        if slope <= 0:
            continue
        # iterations j with  rest + slope*j <= 0  (or < 0)
        if test.op == "le0":
            cnt = add(fn("floordiv", neg(rest), const(slope)), ONE)
        else:
            cnt = neg(fn("floordiv", rest, const(slope)))
        cnt = cnt if nonneg(cnt) else tmax(cnt, ZERO)
        d = Dom.range(ZERO, cnt)

        def body(val, st2):
            return I.exec_block(s.body, st2, fid)
        return I.run_loop([("d", d, S(d.vars[0], "i"))], body, st)
    if never:   # the body raises whatever the counter: the first round is the last
        return I.exec_block([ast.copy_location(ast.If(s.test, s.body, []), s)], st, fid)
    raise Unsupported("while loop without a recognised counter")
