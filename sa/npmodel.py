"""Models of Python built-ins and of the numpy/scipy/os/string API as value-graph
transformers.  Arrays are functions from index variables (one Dom per axis) to a term."""
import ast
import string as _string
from .terms import *
from . import terms as tm
from .values import *


def _I():
    from . import interp
    return interp


def arr_kind(c):
    return c.k


def dim_n(d):
    return d.his[0] if d.simple() else d.size()


def rng(n):
    return Dom.range(ZERO, n if isinstance(n, T) else const(n))


def one(d):
    return d.simple() and d.his[0] is ONE


# ------------------------------------------------------------------ broadcasting
def broadcast_dims(I, conts, st):
    """common dims and per-content index substitution"""
    nd = max([len(c.dims) for c in conts] + [0])
    dims = []
    maps = [dict() for _ in conts]
    for ax in range(nd):
        cand = []
        for i, c in enumerate(conts):
            j = ax - (nd - len(c.dims))
            if j >= 0:
                cand.append((i, c.dims[j]))
        pick = None
        for i, d in cand:
            if not one(d):
                if pick is None or (pick.simple() and not d.simple()):
                    pick = d
        if pick is None:
            pick = cand[0][1]
        new = pick.inst()
        dims.append(new)
        for i, d in cand:
            if d == pick:
                maps[i].update(zip(d.vars, new.vars))
            elif one(d):
                maps[i][d.vars[0]] = ZERO
            else:
                a, b = dim_n(d), dim_n(pick)
                if a is not b:
                    I.abort(st, not_(eq(a, b)), "ValueError")
                if d.simple() and pick.simple():
                    maps[i][d.vars[0]] = new.vars[0]
                elif d.simple():
                    maps[i][d.vars[0]] = flat_pos(new)
                elif pick.simple():
                    maps[i].update(zip(d.vars, unflat(d, new.vars[0])))
                else:
                    maps[i].update(zip(d.vars, unflat(d, flat_pos(new))))
    return dims, maps


def align(d, r):
    """the variables of d in terms of those of r, an axis of the same length"""
    if d == r:
        return dict(zip(d.vars, r.vars))
    if d.simple():
        return {d.vars[0]: r.vars[0] if r.simple() else flat_pos(r)}
    return dict(zip(d.vars, unflat(d, r.vars[0] if r.simple() else flat_pos(r))))


def plain(c, ax):
    """the same array with axis ax numbered 0, 1, 2, ..."""
    return c if c.dims[ax].simple() else compact(c, ax)


def flat_pos(d):
    """position of the point d.vars in a composite domain"""
    if d.rect():
        p = ZERO
        for v, h in zip(d.vars, d.his):
            p = add(mul(p, h), v)
        return p
    # number of earlier points: general domains
    e = d.inst()
    less = FALSE
    same = TRUE
    for a, b in zip(e.vars, d.vars):
        less = or_(less, and_(same, lt(a, b)))
        same = and_(same, eq(a, b))
    return bind("sum", e.with_cond(less), ONE)


def unflat(d, pos):
    if d.rect():
        out = []
        for h in d.his[::-1]:
            out.append(fn("mod", pos, h))
            pos = fn("floordiv", pos, h)
        out = out[::-1]
        return out
    e = d.inst()
    return [bind("nth", e, mk("tup", (pos, v), v.sort)) for v in e.vars]


def nth_of(dom, pos, body):
    """element at position pos of (body over dom)"""
    if dom.simple():
        return subst(body, {dom.vars[0]: pos})
    if dom.rect():
        return subst(body, dict(zip(dom.vars, unflat(dom, pos))))
    if pos is ZERO:
        return bind("first", dom, body)
    if not dom.vars:
        return body
    return bind("nth", dom, mk("tup", (pos, body), body.sort))


def elem(I, f, conts, st, k=None):
    conts = list(conts)
    dims, maps = broadcast_dims(I, conts, st)
    bodies = [subst(c.body, m) for c, m in zip(conts, maps)]
    return ArrC(dims, f(*bodies), k)


def broadcast_to(I, c, dims, st):
    if not dims:
        if c.dims:
            I.abort(st, TRUE, "ValueError")
        return c
    if len(c.dims) > len(dims):
        I.abort(st, TRUE, "ValueError")
        c = c.fresh()
        z = {v: ZERO for d in c.dims[:len(c.dims) - len(dims)] for v in d.vars}
        c = ArrC(c.dims[len(c.dims) - len(dims):], subst(c.body, z), c.k)
    m = {}
    for d, s in zip(dims[len(dims) - len(c.dims):], c.dims):
        if s == d:
            m.update(zip(s.vars, d.vars))
        elif one(s):
            m[s.vars[0]] = ZERO
        else:
            a, b = dim_n(s), dim_n(d)
            if a is not b:
                I.abort(st, not_(eq(a, b)), "ValueError")
            if s.simple():
                m[s.vars[0]] = d.vars[0] if d.simple() else flat_pos(d)
            else:
                m.update(zip(s.vars, unflat(s, d.vars[0] if d.simple() else flat_pos(d))))
    return ArrC(dims, subst(c.body, m), c.k)


def isarr(I, v, st):
    if isinstance(v, AV):
        return True
    if isinstance(v, (Ref, View, Cell)):
        return isinstance(I.content(v, st), (ArrC, S))
    if isinstance(v, Gt):
        return isarr(I, v.a, st) or isarr(I, v.b, st)
    return False


def anyun(*vs):
    for v in vs:
        if isinstance(v, Un):
            return v
        if isinstance(v, Gt):
            u = anyun(v.a, v.b)
            if u:
                return u
    return None


def has_un(v, depth=3):
    if isinstance(v, Un):
        return v
    if isinstance(v, Tup) and depth:
        for x in v.items:
            u = has_un(x, depth - 1)
            if u:
                return u
    if isinstance(v, Gt) and depth:
        return has_un(v.a, depth - 1) or has_un(v.b, depth - 1)
    return None


# ------------------------------------------------------------------ operators
def _num_k(op, a, b, ka, kb):
    k = kjoin(ka, kb)
    if op == "Div":
        return "c" if k == "c" else "f"
    if k == "b" and op not in ("BitAnd", "BitOr", "BitXor"):
        k = "i"
    return k


def num_op(I, op, x, y, ka, kb, st, scalar_py=False, scalar=False):
    k = _num_k(op, x, y, ka, kb)
    if op == "Add":
        return add(x, y), k
    if op == "Sub":
        return sub(num(x), num(y)), k
    if op == "Mult":
        return mul(x, y), k
    if op == "Div":
        y = num(y)
        if scalar_py and y.op != "opq":
            I.abort(st, eq(y, ZERO), "ZeroDivisionError")
        return div(num(x), y), k
    if op == "Pow":
        x, y = num(x), num(y)
        if k == "i" and not nonneg(y):
            if scalar_py:
                k = "i" if (x is NEG1 or x is ONE) else "f"
            elif scalar and not scalar_py and x is not NEG1:
                I.abort(st, lt(y, ZERO), "ValueError")
        return power(x, y), k
    if op == "Mod":
        return fn("mod", num(x), num(y)), k
    if op == "FloorDiv":
        return fn("floordiv", num(x), num(y)), k
    if op in ("BitAnd", "BitOr", "BitXor"):
        if k == "b":
            x, y = tm._bool(x), tm._bool(y)
            if op == "BitAnd":
                return and_(x, y), "b"
            if op == "BitOr":
                return or_(x, y), "b"
            return not_(eq(x, y)), "b"
        return fn("bit:" + op, num(x), num(y)), k
    if op == "LShift":
        return mul(x, power(TWO, y)), k
    if op == "RShift":
        return fn("floordiv", num(x), power(TWO, y)), k
    raise Unsupported("operator " + op)


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv",
          "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}


def objcls(I, v, st):
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ObjC) and isinstance(st.heap[v.id].cls, ClsV):
        return st.heap[v.id].cls
    return None


def gate_apply(I, c, fa, fb, st):
    """evaluate two alternatives under complementary conditions and join"""
    s = simp_under(c, st.pc)
    if s is TRUE:
        return fa(st)
    if s is FALSE:
        return fb(st)
    a, b = st.fork(), st.fork()
    a.pc, b.pc = and_(a.pc, c), and_(b.pc, not_(c))
    Dead = _I().Dead
    va = vb = None
    try:
        va = fa(a)
    except Dead:
        a = None
    try:
        vb = fb(b)
    except Dead:
        b = None
    if a is None and b is None:
        raise Dead()
    st.take(I.merge(c, a, b))
    if b is None:
        return va
    if a is None:
        return vb
    return I.merge_val(c, va, vb)


def binop(I, op, a, b, st):
    u = anyun(a, b)
    if u:
        return Un(u.why)
    ca, cb = objcls(I, a, st), objcls(I, b, st)
    if ca or cb:
        if ca:
            f = ca.lookup("__%s__" % DUNDER.get(op, "?"))
            if f is not None:
                return I.call(f, [a, b], {}, st)
        if cb:
            f = cb.lookup("__r%s__" % DUNDER.get(op, "?"))
            if f is not None:
                return I.call(f, [b, a], {}, st)
        I.abort(st, TRUE, "TypeError")
    if isinstance(a, S) and isinstance(b, S):
        py = not (a.np or b.np)
        t, k = num_op(I, op, a.t, b.t, a.k, b.k, st, py, True)
        return S(t, k, not py)
    if isinstance(a, Gt) and not isarr(I, a, st):
        return gate_apply(I, a.c, lambda s: binop(I, op, a.a, b, s), lambda s: binop(I, op, a.b, b, s), st)
    if isinstance(b, Gt) and not isarr(I, b, st):
        return gate_apply(I, b.c, lambda s: binop(I, op, a, b.a, s), lambda s: binop(I, op, a, b.b, s), st)
    if isinstance(a, St):
        if op == "Add" and isinstance(b, St):
            return St(concat([a.t, b.t]))
        if op == "Mod":
            return percent_format(I, a, b, st)
        if op == "Mult" and isinstance(b, S):
            return St(pyfold("str_repeat", a.t, b.t))
        I.abort(st, TRUE, "TypeError")
    if isinstance(b, St) and isinstance(a, S) and op == "Mult":
        return binop(I, op, b, a, st)
    la = listlike(I, a, st)
    lb = listlike(I, b, st)
    if op == "Add" and la is not None and lb is not None:
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        return I.new(st, ListC(tuple(la) + tuple(lb)))
    if op == "Mult" and la is not None and isinstance(b, S):
        return repeat(I, a, la, b, st)
    if op == "Mult" and lb is not None and isinstance(a, S):
        return repeat(I, b, lb, a, st)
    sa, sb = setlike(I, a, st), setlike(I, b, st)
    if sa is not None and sb is not None:
        return set_op(I, op, sa, sb, st)
    if isinstance(a, ExtO) or isinstance(b, ExtO):
        return ExtO("expr", None)
    if op == "MatMult":
        return I.back(matmul(I, I.arr(a, st), I.arr(b, st), st), st)
    x, y = I.arr(a, st), I.arr(b, st)
    kk = []

    def f(p, q):
        t, k = num_op(I, op, p, q, x.k, y.k, st)
        kk.append(k)
        return t
    c = elem(I, f, [x, y], st)
    return I.back(ArrC(c.dims, c.body, kk[0]), st)


def listlike(I, v, st):
    if isinstance(v, Tup):
        return [("i", x) for x in v.items]
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ListC):
        return list(st.heap[v.id].segs)
    return None


def repeat(I, v, segs, n, st):
    if isc(n.t):
        k = max(int(cval(n.t)), 0)
        if isinstance(v, Tup):
            return Tup(v.items * k)
        return I.new(st, ListC(tuple(segs) * k))
    d = rng(n.t if nonneg(n.t) else tmax(n.t, ZERO))
    fz = [("i", I.freeze(s[1], st, 0)) if s[0] == "i" else s for s in segs]
    if len(fz) == 1 and fz[0][0] == "i":
        return I.new(st, ListC([("d", d, fz[0][1])]))
    return I.new(st, ListC([("g", d, tuple(fz))]))


def unop(I, op, v, st):
    if isinstance(v, Un):
        return v
    if objcls(I, v, st):
        f = objcls(I, v, st).lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        if f is None:
            I.abort(st, TRUE, "TypeError")
        return I.call(f, [v], {}, st)
    if isinstance(v, Gt) and not isarr(I, v, st):
        return I.merge_val(v.c, unop(I, op, v.a, st), unop(I, op, v.b, st))
    def f(t, k):
        if op == "USub":
            return neg(num(t)), ("i" if k == "b" else k)
        if op == "UAdd":
            return t, k
        if k == "b":
            return not_(tm._bool(t)), "b"
        return sub(NEG1, t), k
    if isinstance(v, S):
        t, k = f(v.t, v.k)
        return S(t, k, v.np)
    c = I.arr(v, st)
    t, k = f(c.body, c.k)
    return I.back(ArrC(c.dims, t, k).fresh(), st)


CMP = {"Eq": eq, "NotEq": lambda a, b: not_(eq(a, b)), "Lt": lt, "LtE": le,
       "Gt": lambda a, b: lt(b, a), "GtE": lambda a, b: le(b, a)}
SWAP = {"Eq": "Eq", "NotEq": "NotEq", "Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
CMPD = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}


def compare(I, op, a, b, st):
    if op in ("Is", "IsNot"):
        r = is_same(I, a, b, st)
        return S(r if op == "Is" else not_(r), "b")
    if op in ("In", "NotIn"):
        r = contains(I, b, a, st)
        return S(r if op == "In" else not_(r), "b")
    u = anyun(a, b)
    if u:
        return Un(u.why)
    ca = objcls(I, a, st)
    if ca is not None:
        f = ca.lookup(CMPD[op])
        if f is None and op == "NotEq" and ca.lookup("__eq__") is not None:
            return S(not_(I.truth(I.call(ca.lookup("__eq__"), [a, b], {}, st), st)), "b")
        if f is not None:
            return I.call(f, [a, b], {}, st)
    if isinstance(a, S) and isinstance(b, S):
        return S(CMP[op](num(a.t) if a.k != "b" else a.t, num(b.t) if b.k != "b" else b.t)
                 if not (op not in ("Eq", "NotEq")) or a.k == b.k == "b" else CMP[op](num(a.t), num(b.t)), "b", a.np or b.np)
    if isinstance(a, Gt) and not isarr(I, a, st):
        return I.merge_val(a.c, compare(I, op, a.a, b, st), compare(I, op, a.b, b, st))
    if isinstance(b, Gt) and not isarr(I, b, st):
        return I.merge_val(b.c, compare(I, op, a, b.a, st), compare(I, op, a, b.b, st))
    if op in ("Eq", "NotEq"):
        r = equal(I, a, b, st)
        if r is not None:
            return S(r if op == "Eq" else not_(r), "b")
    if isinstance(a, St) and isinstance(b, St):
        if a.const() is not None and b.const() is not None:
            return S(const({"Lt": a.const() < b.const(), "LtE": a.const() <= b.const(), "Gt": a.const() > b.const(),
                            "GtE": a.const() >= b.const()}[op]), "b")
        raise Unsupported("string ordering")
    if isinstance(a, (ExtO, ModV)) or isinstance(b, (ExtO, ModV)):
        return Un("comparison of external values")
    if isarr(I, a, st) or isarr(I, b, st):
        x, y = I.arr(a, st), I.arr(b, st)
        nb = x.k == "b" and y.k == "b"
        f = lambda p, q: CMP[op](p if nb else num(p), q if nb else num(q))
        c = elem(I, f, [x, y], st, "b")
        return I.back(c, st)
    sa, sb = setlike(I, a, st), setlike(I, b, st)
    if sa is not None and sb is not None and op in ("LtE", "GtE"):
        if op == "GtE":
            sa, sb = sb, sa
        return S(tall(Dom("k", (sa.l, sa.m), (), (), sa.has), subst(sb.has, {sb.l: sa.l, sb.m: sa.m})), "b")
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        # lexicographic
        r = const(op in ("LtE", "GtE"))
        strict = "Lt" if op[0] == "L" else "Gt"
        for x, y in list(zip(a.items, b.items))[::-1]:
            l = I.truth(compare(I, strict, x, y, st), st)
            e = I.truth(compare(I, "Eq", x, y, st), st)
            r = or_(l, and_(e, r))
        return S(r, "b")
    I.abort(st, TRUE, "TypeError")


def equal(I, a, b, st):
    """equality of non-object values; None when array semantics apply"""
    if isinstance(a, Gt):
        x, y = equal(I, a.a, b, st), equal(I, a.b, b, st)
        return None if x is None or y is None else ite(a.c, x, y)
    if isinstance(b, Gt):
        return equal(I, b, a, st)
    if isinstance(a, S) and isinstance(b, S):
        return eq(a.t, b.t) if (a.k == "b") == (b.k == "b") else eq(num(a.t), num(b.t))
    if isinstance(a, St) and isinstance(b, St):
        return eq(a.t, b.t)
    if isarr(I, a, st) or isarr(I, b, st):
        if a is NONE or b is NONE:
            return None
        return None
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        r = TRUE
        for x, y in zip(a.items, b.items):
            e = equal(I, x, y, st)
            if e is None:
                return None
            r = and_(r, e)
        return r
    if type(a) is not type(b) and not (isinstance(a, (Ref, Cell, View)) and isinstance(b, (Ref, Cell, View))):
        if isinstance(a, (B, ClsV)) and isinstance(b, (B, ClsV)):
            return FALSE
        if isinstance(a, (ExtO, Un)) or isinstance(b, (ExtO, Un)):
            return opaque("equality of external values", "b")
        return FALSE
    if isinstance(a, B):
        return const(a.name == b.name)
    if isinstance(a, ClsV):
        return const(a.name == b.name and a.mod == b.mod)
    if a is NONE:
        return TRUE
    if isinstance(a, (Ref, Cell, View)):
        la, lb = listlike(I, a, st), listlike(I, b, st)
        if la is not None and lb is not None:
            if all(s[0] == "i" for s in la) and all(s[0] == "i" for s in lb):
                return equal(I, Tup([s[1] for s in la]), Tup([s[1] for s in lb]), st)
            raise Unsupported("comparison of symbolic lists")
        sa, sb = setlike(I, a, st), setlike(I, b, st)
        if sa is not None and sb is not None:
            hb = subst(sb.has, {sb.l: sa.l, sb.m: sa.m})
            return not_(bind("any", Dom("k", (sa.l, sa.m), (), (), TRUE), not_(eq(sa.has, hb))))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return TRUE
        raise Unsupported("comparison of containers")
    if isinstance(a, FnV):
        return const(a.node is b.node)
    if isinstance(a, Dt):
        return const(a.k == b.k)
    return opaque("equality", "b")


def is_same(I, a, b, st):
    if isinstance(a, Gt):
        return ite(a.c, is_same(I, a.a, b, st), is_same(I, a.b, b, st))
    if isinstance(b, Gt):
        return is_same(I, b, a, st)
    if isinstance(a, Un) or isinstance(b, Un):
        return opaque("identity of unknown", "b")
    if a is NONE or b is NONE:
        if isinstance(a, ExtO) or isinstance(b, ExtO):
            x = a if isinstance(a, ExtO) else b
            if x.path.startswith("args."):
                return opaque("optional external", "b")
        return const(a is b)
    if isinstance(a, S) and isinstance(b, S):
        if a.k == b.k == "b":
            return eq(a.t, b.t)
        if (a.k == "b") != (b.k == "b"):
            return FALSE
        return eq(a.t, b.t)
    if isinstance(a, St) and isinstance(b, St):
        return eq(a.t, b.t)
    if type(a) is type(b):
        if isinstance(a, (Ref, B)):
            return const(a == b)
        if isinstance(a, ClsV):
            return const(a.name == b.name and a.mod == b.mod)
        if isinstance(a, FnV):
            return const(a.node is b.node)
        return const(a is b)
    return FALSE


def contains(I, cont, x, st):
    if isinstance(cont, Gt):
        return ite(cont.c, contains(I, cont.a, x, st), contains(I, cont.b, x, st))
    if isinstance(cont, Un) or isinstance(x, Un):
        raise _I().UnknownValue("membership")
    if isinstance(cont, St):
        if cont.const() is not None and isinstance(x, St) and x.const() is not None:
            return const(x.const() in cont.const())
        return fn("contains", cont.t, x.t)
    if isinstance(cont, Tup):
        return or_(*[eqv(I, y, x, st) for y in cont.items]) if cont.items else FALSE
    c = I.content(cont, st) if isinstance(cont, (Ref, View, Cell, AV)) else None
    if isinstance(c, ListC):
        r = FALSE
        for s in c.segs:
            r = or_(r, seg_any(I, s, lambda y: eqv(I, y, x, st)))
        return r
    if isinstance(c, DictC):
        if is_const(x):
            return const(const_of(x) in c.items)
        return or_(*[eqv(I, pv(k), x, st) for k in c.items]) if c.items else FALSE
    if isinstance(c, (MapC, SetC)):
        if isinstance(x, Tup) and len(x.items) == 2:
            return subst(c.has, {c.l: x.items[0].t, c.m: x.items[1].t})
        return FALSE
    if isinstance(c, ObjC) and isinstance(c.cls, ClsV):
        f = c.cls.lookup("__contains__")
        if f is not None:
            return I.truth(I.call(f, [cont, x], {}, st), st)
    if isinstance(c, ArrC):
        e = c.fresh()
        b = eq(e.body, x.t)
        for d in e.dims[::-1]:
            b = tany(d, b)
        return b
    if isinstance(cont, Partial) and cont.fn == "mapkeys":
        return contains(I, cont.args[0], x, st)
    if isinstance(cont, It):
        r = FALSE
        for s in cont.segs:
            r = or_(r, seg_any(I, s, lambda y: eqv(I, y, x, st)))
        return r
    raise Unsupported("membership in %r" % (cont,))


def eqv(I, y, x, st):
    r = equal(I, y, x, st)
    if r is None:
        raise Unsupported("array membership")
    return r


def seg_any(I, s, f):
    if s[0] == "i":
        return f(s[1])
    if s[0] == "d":
        return tany(s[1], f(s[2]))
    if s[0] == "g":
        r = FALSE
        for x in s[2]:
            r = or_(r, seg_any(I, x, f))
        return tany(s[1], r)
    raise Unsupported("partial list")


def pv(k):
    return _I().pyval(k)


# ------------------------------------------------------------------ sets of index pairs
def setlike(I, v, st):
    if isinstance(v, SetC):
        return v
    if isinstance(v, Partial) and v.fn == "mapkeys":
        c = st.heap[v.args[0].id]
        if isinstance(c, MapC):
            return SetC(c.l, c.m, c.has)
        return None
    if isinstance(v, (Ref,)):
        c = st.heap[v.id]
        if isinstance(c, SetC):
            return c
        if isinstance(c, MapC):
            return SetC(c.l, c.m, c.has)
    return None


def set_op(I, op, a, b, st):
    hb = subst(b.has, {b.l: a.l, b.m: a.m})
    h = {"BitOr": lambda: or_(a.has, hb), "BitAnd": lambda: and_(a.has, hb), "Sub": lambda: and_(a.has, not_(hb)),
         "BitXor": lambda: not_(eq(a.has, hb))}[op]()
    return I.new(st, SetC(a.l, a.m, h))


def make_set(I, v, st):
    """set of index pairs, or plain list of distinct constants"""
    s = setlike(I, v, st)
    if s is not None:
        return I.new(st, SetC(s.l, s.m, s.has))
    segs = I.segments(v, st)
    if segs and all(s[0] == "i" and is_const(s[1]) for s in segs):
        out = []
        for s in segs:
            if not any(const_of(x[1]) == const_of(s[1]) for x in out):
                out.append(s)
        if all(isinstance(s[1], Tup) and len(s[1].items) == 2 and isinstance(s[1].items[0], S) for s in out):
            pass
        else:
            return I.new(st, ListC(out))
    l, m = fresh("i", name="l"), fresh("i", name="m")
    has = FALSE
    for s in segs:
        def f(y):
            if isinstance(y, Tup) and len(y.items) == 2 and all(isinstance(q, S) for q in y.items):
                return and_(eq(l, y.items[0].t), eq(m, y.items[1].t))
            if isinstance(y, S):
                return and_(eq(l, y.t), eq(m, ZERO))
            raise Unsupported("set element %r" % (y,))
        if isinstance(s[1], S) or (s[0] == "d" and isinstance(s[2], S)):
            raise Unsupported("set of numbers")
        has = or_(has, seg_any(I, s, f))
    return I.new(st, SetC(l, m, has))


# ------------------------------------------------------------------ strings
def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == "str" and out and out[-1].op == "str":
                out[-1] = string(out[-1].args[0] + q.args[0])
            elif not (q.op == "str" and q.args[0] == ""):
                out.append(q)
    if not out:
        return string("")
    if len(out) == 1:
        return out[0]
    return mk("concat", tuple(out), "s")


def pyc(t):
    if t.op == "str":
        return t.args[0]
    if t.op == "c" and not isinstance(cval(t), tuple):
        f = cval(t)
        return int(f) if f.denominator == 1 else float(f)
    raise ValueError


def pyfold(name, *ts, sort="s"):
    try:
        v = [pyc(t) for t in ts]
        if name == "str_repeat":
            return string(v[0] * v[1])
        r = getattr(v[0], name)(*v[1:])
        if isinstance(r, str):
            return string(r)
        if isinstance(r, (bool, int)):
            return const(r)
    except (ValueError, AttributeError, TypeError):
        pass
    return mk("py:" + name, tuple(ts), sort)


def format_value(I, v, spec, st):
    if spec is None:
        raise Unsupported("computed format specification")
    if isinstance(v, Gt):
        return ite(v.c, format_value(I, v.a, spec, st), format_value(I, v.b, spec, st))
    if isinstance(v, Un):
        return opaque(v.why, "s")
    if isinstance(v, St):
        if spec == "":
            return v.t
        if v.const() is not None:
            return string(format(v.const(), spec))
        return mk("fmt", (string(spec), v.t), "s")
    if v is NONE:
        return string("None")
    if isinstance(v, S):
        if is_const(v):
            try:
                return string(format(const_of(v), spec))
            except ValueError:
                I.abort(st, TRUE, "ValueError")
        if v.t.sort == "b":
            return ite(v.t, string("True"), string("False"))
        if spec == "":
            return mk("strof", (v.t, string(v.k)), "s")
        if v.k == "c" and spec[-1] in "di":
            I.abort(st, TRUE, "ValueError")
        return mk("fmt", (string(spec), v.t), "s")
    c = I.content(v, st) if isinstance(v, (Ref, View, Cell, AV)) else None
    if isinstance(c, ArrC) and spec:
        if not c.dims:
            return mk("fmt", (string(spec), c.body), "s")
        if spec:
            I.abort(st, TRUE, "TypeError")
    try:
        return mk("strobj", (as_term(I, v, st),), "s")
    except Unsupported:
        return opaque("text of %r" % (v,), "s")


def as_term(I, v, st):
    """a term that determines the value (for comparison of effects and printed text)"""
    if isinstance(v, S):
        return v.t
    if isinstance(v, St):
        return v.t
    if v is NONE:
        return string("<None>")
    if isinstance(v, Un):
        return opaque(v.why, "o")
    if isinstance(v, Gt):
        return mk("ite", (v.c, as_term(I, v.a, st), as_term(I, v.b, st)), "o")
    if isinstance(v, Tup):
        return mk("tcat", tuple(mk("cap1", (mk("tup", (as_term(I, x, st),), "o"),), "o") for x in v.items), "o")
    if isinstance(v, It):
        return segs_term(I, v.segs, st)
    if isinstance(v, (Ref, View, Cell, AV)):
        c = I.content(v, st)
        if isinstance(c, ArrC):
            return arr_term(c)
        if isinstance(c, ListC):
            return segs_term(I, c.segs, st)
        if isinstance(c, DictC):
            return mk("tcat", tuple(mk("cap1", (mk("tup", (string(repr(k)), as_term(I, x, st)), "o"),), "o")
                                    for k, x in sorted(c.items.items(), key=lambda p: repr(p[0]))), "o")
        if isinstance(c, S):
            return c.t
        if isinstance(c, MapC):
            d = Dom("k", (c.l, c.m), (), (), c.has)
            body = mk("tup", (c.l, c.m, as_term(I, c.val, st) if c.val is not None else ZERO), "o")
            return bind("seq", d, body)
    if isinstance(v, ExtO):
        return string("<" + v.path + ">")
    if isinstance(v, B):
        return string("<" + v.name + ">")
    if isinstance(v, Sl):
        return mk("tup", tuple(as_term(I, x, st) for x in (v.a, v.b, v.c)), "o")
    if isinstance(v, (FnV, ClsV)):
        return string("<%s>" % v.name)
    raise Unsupported("term of %r" % (v,))


def arr_term(c):
    b = c.body
    for d in c.dims[::-1]:
        b = bind("seq", d, b)
        b = _osort(b)
    return b


def _osort(b):
    return b


def segs_term(I, segs, st):
    parts = []
    for s in segs:
        if s[0] == "i":
            parts.append(mk("cap1", (mk("tup", (as_term(I, s[1], st),), "o"),), "o"))
        elif s[0] == "d":
            parts.append(bind("seq", s[1], mk("cap1", (as_term(I, s[2], st),), "o")))
        elif s[0] == "g":
            parts.append(bind("cat", s[1], segs_term(I, s[2], st)))
        else:
            raise Unsupported("partial list")
    return mk("tcat", tuple(parts), "o")


def percent_format(I, a, b, st):
    tpl = a.const()
    if tpl is None:
        raise Unsupported("computed % template")
    args = list(b.items) if isinstance(b, Tup) else [b]
    import re
    out, pos, n = [], 0, 0
    for m in re.finditer(r"%(\((\w+)\))?([-+ #0]*\*?\d*(?:\.\d+)?)([a-zA-Z%])", tpl):
        out.append(string(tpl[pos:m.start()]))
        pos = m.end()
        if m.group(4) == "%":
            out.append(string("%"))
            continue
        if m.group(2):
            v = getitem_any(I, b, St(m.group(2)), st)
        else:
            if n >= len(args):
                I.abort(st, TRUE, "TypeError")
            v = args[n]
            n += 1
        spec = m.group(3)
        if isinstance(v, Un):
            out.append(opaque(v.why, "s"))
        elif m.group(4) == "s" and not spec:
            out.append(format_value(I, v, "", st))
        elif isinstance(v, S):
            if v.k == "c" and m.group(4) not in "sr":
                I.abort(st, TRUE, "TypeError")
            if is_const(v):
                out.append(string(("%" + spec + m.group(4)) % const_of(v)))
            else:
                out.append(mk("fmt", (string("%" + spec + m.group(4)), v.t), "s"))
        elif isinstance(v, St):
            out.append(mk("fmt", (string("%" + spec + m.group(4)), v.t), "s"))
        elif isinstance(v, (Ref, View, Cell, AV)) and isinstance(I.content(v, st), ArrC):
            c = I.content(v, st)
            if c.dims:
                if not all(one(d) for d in c.dims):
                    I.abort(st, TRUE, "TypeError")
                t = c.at([(ZERO,) for _ in c.dims])
            else:
                t = c.body
            out.append(mk("fmt", (string("%" + spec + m.group(4)), t), "s"))
        else:
            out.append(opaque("text of object", "s"))
    out.append(string(tpl[pos:]))
    return St(concat(out))


def str_format(I, tpl, args, kw, st):
    t = tpl.const()
    if t is None:
        raise Unsupported("computed format template")
    out, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(t):
        out.append(string(lit))
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                I.abort(st, TRUE, "IndexError")
            v = args[first]
        else:
            if first not in kw:
                I.abort(st, TRUE, "KeyError")
            v = kw[first]
        for isattr, nme in rest:
            v = I.getattr_(v, nme, st) if isattr else getitem_any(I, v, pv(nme), st)
        if spec and "{" in spec:
            spec = str_format(I, St(spec), args[auto:], kw, st).const()
        out.append(format_value(I, v, spec, st))
    return St(concat(out))


# ------------------------------------------------------------------ indexing
def wrap_index(I, t, n, st, check=True):
    """index term after negative wrap-around; aborts when out of range"""
    if t.sort == "b":
        t = num(t)
    if isc(t):
        if cval(t) < 0:
            r = add(n, t)
            if check:
                I.abort(st, lt(r, ZERO), "IndexError")
            return r
        if check:
            I.abort(st, le(n, t), "IndexError")
        return t
    if check:
        I.abort(st, or_(lt(t, neg(n)), le(n, t)), "IndexError")
    if nonneg(t) or simp_under(le(ZERO, t), st.pc) is TRUE:
        return t
    return ite(lt(t, ZERO), add(t, n), t)


def slice_bounds(I, s, n, st):
    """(start, length, step)"""
    g = lambda v: None if v is NONE else (v.t if isinstance(v, S) else I._raise(Unsupported("slice bound %r" % (v,))))
    a, b, c = g(s.a), g(s.b), g(s.c)
    step = ONE if c is None else c
    if not isc(step):
        raise Unsupported("symbolic slice step")
    stp = int(cval(step))

    def clip(t, lo, hi):
        return tmin(tmax(t, lo), hi)
    def norm(t, lo, hi):
        if isc(t):
            t2 = add(n, t) if cval(t) < 0 else t
        elif nonneg(t) or simp_under(le(ZERO, t), st.pc) is TRUE:
            t2 = t
        else:
            t2 = ite(lt(t, ZERO), add(t, n), t)
        if t2 is n:
            return n if hi is n else hi
        return clip(t2, lo, hi)
    if stp > 0:
        a2 = ZERO if a is None else norm(a, ZERO, n)
        b2 = n if b is None else norm(b, ZERO, n)
        ln = sub(b2, a2)
        if stp != 1:
            ln = fn("floordiv", add(ln, const(stp - 1)), const(stp))
    else:
        a2 = sub(n, ONE) if a is None else norm(a, NEG1, sub(n, ONE))
        b2 = NEG1 if b is None else norm(b, NEG1, sub(n, ONE))
        ln = sub(a2, b2)
        if stp != -1:
            ln = fn("floordiv", add(ln, const(-stp - 1)), const(-stp))
    if not tm._bounds_nonneg(ln):
        ln = tmax(ln, ZERO)
    return a2, ln, const(stp)


def expand_index(I, c, k, st):
    """list of index items, one per array axis plus newaxes"""
    items = list(k.items) if isinstance(k, Tup) else [k]
    out = []
    used = 0
    for x in items:
        if x is NONE or x is ELL:
            continue
        if isinstance(x, (Ref, View, Cell, AV)):
            cc = I.content(x, st)
            if isinstance(cc, ArrC) and cc.k == "b":
                used += max(len(cc.dims), 1)
                continue
        used += 1
    if used > len(c.dims):
        I.abort(st, TRUE, "IndexError")
    seen = False
    for x in items:
        if x is ELL:
            seen = True
            out += [Sl(NONE, NONE, NONE)] * (len(c.dims) - used)
        else:
            out.append(x)
    if not seen:
        out += [Sl(NONE, NONE, NONE)] * (len(c.dims) - used)
    return out


def classify_index(I, items, st):
    basic = True
    for x in items:
        if isinstance(x, Un):
            raise _I().UnknownValue(x.why)
        if isinstance(x, Gt):
            if isinstance(x.a, S) and isinstance(x.b, S):
                continue
            basic = False
        if isinstance(x, (Ref, View, Cell, AV, Tup)):
            basic = False
        if isinstance(x, S) and x.k == "b":
            basic = False
        if isinstance(x, S) and x.k in "fc":
            I.abort(st, TRUE, "IndexError")
    return basic


def basic_sel(I, c, items, st):
    sel, doms = [], []
    ax = 0
    for x in items:
        if x is NONE:
            doms.append(rng(ONE))
            continue
        d = c.dims[ax]
        ax += 1
        if isinstance(x, Gt):
            x = S(ite(x.c, x.a.t, x.b.t), "i")
        if isinstance(x, S):
            if d.simple():
                sel.append(("x", (wrap_index(I, x.t, d.his[0], st),)))
            else:
                p = wrap_index(I, x.t, d.size(), st)
                sel.append(("x", tuple(nth_of(d, p, v) for v in d.vars)))
        elif isinstance(x, Sl):
            full = x.a is NONE and x.b is NONE and x.c is NONE
            if full and not d.simple():
                nd = d.inst()
                sel.append(("w", len(doms)))
                doms.append(nd)
            elif d.simple():
                if full:
                    a, ln, step = ZERO, d.his[0], ONE
                else:
                    a, ln, step = slice_bounds(I, x, d.his[0], st)
                sel.append(("s", len(doms), a, step))
                doms.append(rng(ln))
            else:
                a, ln, step = slice_bounds(I, x, d.size(), st)
                sel.append(("p", len(doms), a, step))
                doms.append(rng(ln))
        else:
            raise Unsupported("index %r" % (x,))
    return sel, doms


def compact(c, ax):
    """the same array with a filtered axis renumbered 0, 1, 2, ..."""
    c = c.fresh()
    d = c.dims[ax]
    nd = rng(d.size())
    m = {w: nth_of(d, nd.vars[0], w) for w in d.vars}
    dims = list(c.dims)
    dims[ax] = nd
    return ArrC(dims, subst(c.body, m), c.k)


def getitem(I, v, c, k, st):
    if c.thin is not None and isinstance(k, Tup) and len([x for x in k.items if x is not ELL and x is not NONE]) > 1:
        I.abort(st, c.thin, "IndexError")
    items = expand_index(I, c, k, st)
    if classify_index(I, items, st):
        sel, doms = basic_sel(I, c, items, st)
        if not doms:
            return S(c.at([s[1] for s in sel]), c.k, True)
        w = View(v, tuple(sel), None, tuple(doms))
        if isinstance(v, AV):
            return I.new(st, I.content(w, st))
        return w
    return I.back(fancy_get(I, c, items, st), st)


def fancy_parts(I, c, items, st):
    """resolve advanced indices: list of per-axis ('x', idx conts) / slices"""
    plan = []
    ax = 0
    for x in items:
        if x is NONE:
            plan.append(("n",))
            continue
        if isinstance(x, S) and x.k != "b":
            d = c.dims[ax]
            ax += 1
            plan.append(("a", (d,), [ArrC((), x.t, "i")]))
            continue
        if isinstance(x, Sl):
            plan.append(("s", c.dims[ax], x))
            ax += 1
            continue
        xc = I.arr(x, st)
        if xc.k == "b" and not xc.dims:
            raise Unsupported("scalar boolean index")
        if xc.k == "b":
            n = len(xc.dims)
            src = c.dims[ax:ax + n]
            ax += n
            e = xc.fresh()
            comp = None
            for d0, dm in zip(src, e.dims):
                if d0 != dm:
                    I.abort(st, not_(eq(dim_n(d0), dim_n(dm))), "IndexError")
                comp = dm if comp is None else comp.product(dm)
            comp = Dom(comp.kind, comp.vars, comp.los, comp.his, and_(comp.cond, tm._bool(e.body)))
            idx = []
            for d0, dm in zip(src, e.dims):
                if d0 == dm:
                    idx += list(dm.vars)
                elif d0.simple() and dm.simple():
                    idx += list(dm.vars)
                elif d0.simple():
                    idx.append(flat_pos(dm))
                else:
                    idx += list(unflat(d0, dm.vars[0]))
            plan.append(("m", tuple(src), comp, idx))
        else:
            if xc.k not in "ib":
                if not (xc.dims and xc.dims[0].simple() and xc.dims[0].his[0] is ZERO):
                    I.abort(st, TRUE, "IndexError")
            d = c.dims[ax]
            ax += 1
            plan.append(("a", (d,), [xc]))
    return plan


def fancy_get(I, c, items, st):
    plan = fancy_parts(I, c, items, st)
    adv = [i for i, p in enumerate(plan) if p[0] in "am"]
    # broadcast integer-array indices together; masks contribute their filtered domain
    conts = []
    for i in adv:
        p = plan[i]
        if p[0] == "a":
            conts.append(p[2][0])
        else:
            comp, idx = p[2], p[3]
            conts.append(ArrC((comp,), ZERO, "i"))
    dims, maps = broadcast_dims(I, conts, st)
    idxmap = {}
    for j, i in enumerate(adv):
        p = plan[i]
        if p[0] == "a":
            t = subst(conts[j].body, maps[j])
            d = p[1][0]
            n = dim_n(d)
            t = wrap_lift(I, t, n, dims, st)
            idxmap[i] = [(t,)] if d.simple() else [tuple(nth_of(d, t, v) for v in d.vars)]
        else:
            src, comp, idx = p[1], p[2], p[3]
            flat = [subst(x, maps[j]) for x in idx]
            out = []
            for d0 in src:
                out.append(tuple(flat[:len(d0.vars)]))
                flat = flat[len(d0.vars):]
            idxmap[i] = out
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    first = adv[0] if contiguous else 0
    outdims = []
    index = []
    placed = False
    for i, p in enumerate(plan):
        if not placed and i == first:
            outdims += dims
            placed = True
        if p[0] == "n":
            outdims.append(rng(ONE))
        elif p[0] == "s":
            d, x = p[1], p[2]
            if x.a is NONE and x.b is NONE and x.c is NONE:
                nd = d.inst()
                outdims.append(nd)
                index.append(tuple(nd.vars))
            else:
                a, ln, step = slice_bounds(I, x, dim_n(d), st)
                nd = rng(ln)
                outdims.append(nd)
                index.append((add(a, mul(step, nd.vars[0])),))
        else:
            index += idxmap[i]
    return ArrC(outdims, c.at(index), c.k)


def wrap_lift(I, t, n, dims, st):
    """bounds check of an index array over dims (lifted), then wrap-around"""
    bad = or_(lt(t, neg(n)), le(n, t))
    for d in dims[::-1]:
        bad = tany(d, bad)
    I.abort(st, bad, "IndexError")
    if nonneg(t):
        return t
    if isc(t):
        return add(n, t)
    return ite(lt(t, ZERO), add(t, n), t)


def setitem(I, o, c, k, v, st):
    if c.thin is not None and isinstance(k, Tup) and len([x for x in k.items if x is not ELL and x is not NONE]) > 1:
        I.abort(st, c.thin, "IndexError")
    items = expand_index(I, c, k, st)
    if classify_index(I, items, st):
        sel, doms = basic_sel(I, c, items, st)
        vc = I.arr(v, st)
        if not doms:
            if vc.dims:
                if not all(one(d) for d in vc.dims):
                    I.abort(st, TRUE, "ValueError")
                vc = ArrC((), vc.at([(ZERO,)] * len(vc.dims)), vc.k)
            if vc.k == "c" and c.k != "c":
                I.abort(st, TRUE, "TypeError")
            w = View(o, tuple(sel), None, ())
            I.write_content(w, vc, st)
            return
        while len(vc.dims) > len(doms) and one(vc.dims[0]):
            vc = ArrC(vc.dims[1:], subst(vc.body, {vc.dims[0].vars[0]: ZERO}), vc.k)
        b = broadcast_to(I, vc, tuple(doms), st)
        I.write_content(View(o, tuple(sel), None, tuple(doms)), b, st)
        return
    # mask / fancy store
    vc = I.arr(v, st)
    plan = fancy_parts(I, c, items, st)
    adv = [p for p in plan if p[0] in "am"]
    if len(plan) == 1 and plan[0][0] == "m":
        src, comp, idx = plan[0][1:]
        e = c.fresh()
        m = dict(zip([x for x in comp.vars], [x for d in e.dims for x in d.vars]))
        if len(comp.vars) != len([x for d in e.dims for x in d.vars]):
            raise Unsupported("mask store with retagged axes")
        cond = subst(comp.cond, m)
        if not vc.dims:
            val = vc.body
        else:
            if len(vc.dims) != 1:
                raise Unsupported("mask store of a multi-dimensional value")
            if vc.dims[0] == comp:
                val = subst(vc.body, dict(zip(vc.dims[0].vars, [x for d in e.dims for x in d.vars])))
            elif one(vc.dims[0]):
                val = subst(vc.body, {vc.dims[0].vars[0]: ZERO})
            else:
                # position among selected elements
                I.abort(st, not_(eq(dim_n(vc.dims[0]), comp.size())), "ValueError")
                val = nth_of(vc.dims[0], subst(flat_pos(comp), m), vc.body)
        I.write_content(o, ArrC(e.dims, ite(cond, I_cast(val, vc.k, c.k), e.body), c.k), st)
        return
    if all(p[0] in "as" for p in plan) and adv:
        # store at integer-array positions (last write wins)
        conts = [p[2][0] for p in adv]
        dims, maps = broadcast_dims(I, conts, st)
        e = c.fresh()
        conds, j = [], 0
        tgt, vdims = [], []
        first = [i for i, p in enumerate(plan) if p[0] == "a"][0]
        for i, (p, d) in enumerate(zip(plan, e.dims)):
            if i == first:
                vdims += dims
            if p[0] == "a":
                t = wrap_lift(I, subst(conts[j].body, maps[j]), dim_n(d), dims, st)
                if not d.simple():
                    raise Unsupported("indexed store on a composite axis")
                conds.append(eq(t, d.vars[0]))
                j += 1
            else:
                x = p[2]
                if not (x.a is NONE and x.b is NONE and x.c is NONE):
                    raise Unsupported("indexed store with partial slice")
                vdims.append(d)
        bc = broadcast_to(I, vc, tuple(vdims), st)
        val = bc.body
        cond = and_(*conds)
        comp = None
        for d in dims:
            comp = d if comp is None else comp.product(d)
        val = I_cast(val, vc.k, c.k)
        if comp is None:
            body = ite(cond, val, e.body)
        else:
            body = ite(tany(comp, cond), bind("pick", comp.with_cond(cond), val), e.body)
        I.write_content(o, ArrC(e.dims, body, c.k), st)
        return
    raise Unsupported("combined mask store")


def I_cast(t, k, to):
    return _I().cast_term(t, k, to)


def getitem_any(I, v, k, st):
    if isinstance(v, Un):
        return v
    if isinstance(k, Un) and not isinstance(v, ExtO):
        return Un(k.why)
    if isinstance(v, Tup):
        if v.thin is not None and is_const(k) and const_of(k) not in (0, -1):
            I.abort(st, v.thin, "IndexError")
        return seq_get(I, [("i", x) for x in v.items], k, st, True)
    if isinstance(v, St):
        if isinstance(k, Sl):
            g = lambda x: None if x is NONE else const_of(x)
            if v.const() is not None and all(x is NONE or is_const(x) for x in (k.a, k.b, k.c)):
                return St(v.const()[g(k.a):g(k.b):g(k.c)])
            f = lambda x: string("") if x is NONE else x.t
            if k.c is NONE:
                return St(mk("slices", (v.t, f(k.a), f(k.b)), "s"))
            return St(opaque("string slice", "s"))
        if v.const() is not None and is_const(k):
            i = const_of(k)
            if not -len(v.const()) <= i < len(v.const()):
                I.abort(st, TRUE, "IndexError")
            return St(v.const()[i])
        I.abort(st, not_(lt(k.t, mk("len_s", (v.t,), "i"))), "IndexError")
        return St(mk("stri", (v.t, k.t), "s"))
    if isinstance(v, It):
        return seq_get(I, list(v.segs), k, st)
    if isinstance(v, Partial) and v.fn == "strtokens":
        return token_get(I, v, k, st)
    if isinstance(v, (Ref, View, Cell, AV)):
        c = I.content(v, st)
        if isinstance(c, ArrC):
            return getitem(I, v, c, k, st)
        if isinstance(c, ListC):
            return seq_get(I, list(c.segs), k, st)
        if isinstance(c, DictC):
            if is_const(k):
                kk = const_of(k)
                if kk not in c.items:
                    I.abort(st, TRUE, "KeyError")
                return c.items[kk]
            return dict_sym_get(I, c, k, st)
        if isinstance(c, MapC):
            if not (isinstance(k, Tup) and len(k.items) == 2):
                I.abort(st, TRUE, "KeyError")
            l, m = k.items[0].t, k.items[1].t
            I.abort(st, not_(c.hasat(l, m)), "KeyError")
            x = c.val
            if isinstance(x, AV):
                return Cell(v, l, m)
            return I.val_subst(x, {c.l: l, c.m: m})
        if isinstance(c, ObjC):
            if isinstance(c.cls, ClsV):
                f = c.cls.lookup("__getitem__")
                if f is not None:
                    return I.call(f, [v, k], {}, st)
                I.abort(st, TRUE, "TypeError")
    if isinstance(v, ExtO):
        kk = k
        try:
            path = "%s[%s]" % (v.path, show(as_term(I, k, st), 5))
        except Unsupported:
            path = v.path + "[?]"
        return ExtO(path, v.key)
    if isinstance(v, S):
        I.abort(st, TRUE, "TypeError" if not v.np else "IndexError")
    if isinstance(v, B):
        return v
    raise Unsupported("item of %r" % (v,))


def dict_sym_get(I, c, k, st):
    conds = [(eqv(I, pv(kk), k, st), x) for kk, x in c.items.items()]
    conds = [(a, x) for a, x in conds if a is not FALSE]
    I.abort(st, not_(or_(*[a for a, _ in conds])) if conds else TRUE, "KeyError")
    r = conds[-1][1]
    for a, x in conds[:-1][::-1]:
        r = I.merge_val(a, x, r)
    return r


def uniform(I, segs):
    """a sequence of plain values as one segment numbered 0, 1, 2, ..., or None"""
    def plain_value(v):
        return isinstance(v, (S, St)) or isinstance(v, Tup) and all(plain_value(x) for x in v.items)
    off = ZERO
    pieces = []
    for s in segs:
        if s[0] == "i" and plain_value(s[1]):
            pieces.append((off, ONE, None, s[1]))
            off = add(off, ONE)
        elif s[0] == "d" and plain_value(s[2]) and s[1].kind == "r":
            pieces.append((off, s[1].size(), s[1], s[2]))
            off = add(off, s[1].size())
        else:
            return None
    nd = rng(off)
    p = nd.vars[0]
    res = None
    for o, ln, d, x in pieces[::-1]:
        if d is not None:
            x = val_nth(I, d, sub(p, o), x)
        res = x if res is None else I.merge_val(lt(p, add(o, ln)), x, res)
    return ("d", nd, res)


def seq_get(I, segs, k, st, tup=False):
    conc = all(s[0] == "i" for s in segs)
    if isinstance(k, Sl):
        if conc and all(x is NONE or is_const(x) for x in (k.a, k.b, k.c)):
            g = lambda x: None if x is NONE else const_of(x)
            r = segs[slice(g(k.a), g(k.b), g(k.c))]
            return Tup([s[1] for s in r]) if tup else I.new(st, ListC(r))
        if len(segs) == 1 and segs[0][0] == "d" and segs[0][1].simple():
            d, val = segs[0][1], segs[0][2]
            a, ln, step = slice_bounds(I, k, d.his[0], st)
            nd = rng(ln)
            return I.new(st, ListC([("d", nd, I.val_subst(val, {d.vars[0]: add(a, mul(step, nd.vars[0]))}))]))
        if k.a is NONE and k.b is NONE and k.c is NONE:
            return I.new(st, ListC(segs))
        if k.c is NONE and all(x is NONE or is_const(x) for x in (k.a, k.b)):
            # items at the ends taken off
            lo = 0 if k.a is NONE else const_of(k.a)
            hi = 0 if k.b is NONE else const_of(k.b)
            if 0 <= lo and hi <= 0 and (k.b is NONE or hi) and lo - hi <= len(segs):
                if all(x[0] == "i" for x in segs[:lo]) and all(x[0] == "i" for x in segs[len(segs) + hi:]):
                    return I.new(st, ListC(segs[lo:len(segs) + hi]))
        u = uniform(I, segs)
        if u is not None:
            return seq_get(I, [u], k, st, tup)
        raise Unsupported("slice of a symbolic list")
    if isinstance(k, Gt):
        k = S(ite(k.c, k.a.t, k.b.t), "i")
    if not isinstance(k, S):
        I.abort(st, TRUE, "TypeError")
    if k.k in "fc":
        I.abort(st, TRUE, "TypeError")
    t = num(k.t)
    if conc:
        vals = [s[1] for s in segs]
        if isc(t):
            i = int(cval(t))
            if not -len(vals) <= i < len(vals):
                I.abort(st, TRUE, "IndexError")
            return I.thaw(vals[i], st)
        if not vals:
            I.abort(st, TRUE, "IndexError")
        t = wrap_index(I, t, const(len(vals)), st)
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = I.merge_val(eq(t, const(i)), vals[i], r)
        return r
    n = I.seglen(segs)
    if isc(t) and cval(t) >= 0 and segs[0][0] == "i":
        i = int(cval(t))
        if all(s[0] == "i" for s in segs[:i + 1]) and len(segs) > i:
            return I.thaw(segs[i][1], st)
    if isc(t) and cval(t) < 0 and all(s[0] == "i" for s in segs[int(cval(t)):]) and len(segs) >= -int(cval(t)):
        return I.thaw(segs[int(cval(t))][1], st)
    if len(segs) == 1 and segs[0][0] == "d":
        d, val = segs[0][1], segs[0][2]
        p = wrap_index(I, t, n, st)
        return I.thaw(val_nth(I, d, p, val), st)
    # several segments
    p = wrap_index(I, t, n, st)
    off = ZERO
    res = None
    pieces = []
    for s in segs:
        if s[0] == "i":
            pieces.append((off, ONE, s[1]))
            off = add(off, ONE)
        elif s[0] == "d":
            pieces.append((off, s[1].size(), (s[1], s[2])))
            off = add(off, s[1].size())
        else:
            raise Unsupported("index into nested sequence")
    for o, ln, x in pieces[::-1]:
        val = val_nth(I, x[0], sub(p, o), x[1]) if isinstance(x, tuple) else x
        res = val if res is None else I.merge_val(lt(p, add(o, ln)), val, res)
    return I.thaw(res, st)


def val_nth(I, d, p, val):
    if d.simple():
        return I.val_subst(val, {d.vars[0]: p})
    if isinstance(val, S):
        return S(nth_of(d, p, val.t), val.k, val.np)
    if isinstance(val, St):
        return St(nth_of(d, p, val.t))
    if isinstance(val, Tup):
        return Tup([val_nth(I, d, p, x) for x in val.items])
    m = {v: nth_of(d, p, v) for v in d.vars}
    return I.val_subst(val, m)


def token_get(I, v, k, st):
    """tokens of a symbolic line: Partial('strtokens', (term,))"""
    s = v.args[0]
    if isinstance(k, S) and isc(k.t) and cval(k.t) >= 0:
        I.abort(st, not_(lt(k.t, mk("ntok", (s,), "i"))), "IndexError")
        return St(mk("tok", (s, k.t), "s"))
    if isinstance(k, Sl) and all(x is NONE or is_const(x) for x in (k.a, k.b, k.c)):
        a = 0 if k.a is NONE else const_of(k.a)
        if k.b is not NONE and k.c is NONE and a >= 0 and const_of(k.b) >= a:
            return Partial("tokslice", (s, a, const_of(k.b)), {})
    raise Unsupported("token index")


# ------------------------------------------------------------------ reductions
def axes_of(I, c, axis, st):
    if axis is NONE or axis is None:
        return list(range(len(c.dims)))
    if isinstance(axis, Tup):
        ax = [const_of(x) for x in axis.items]
    else:
        ax = [const_of(axis)]
    out = []
    for a in ax:
        if not -len(c.dims) <= a < len(c.dims):
            I.abort(st, TRUE, "AxisError")
        out.append(a % len(c.dims))
    return out


def reduce_(I, op, c, axis, keep, st, where=None, initial=None):
    ax = axes_of(I, c, axis, st)
    c = c.fresh()
    red = [c.dims[i] for i in ax]
    body = c.body
    k = c.k
    dom = None
    comp = True
    for d in red:
        nd = d if dom is None else dom.product(d)
        if nd is None:
            comp = False
            break
        dom = nd
    def nest(o, b):
        if not red:
            return b
        if comp:
            return bind(o, dom, b)
        for d in red[::-1]:
            b = bind(o, d, b)
        return b
    if op == "sum":
        if k == "b":
            k = "i"
        if where is not None:
            body = ite(where, num(body), ZERO)
        body = nest("sum", body)
    elif op == "prod":
        if k == "b":
            k = "i"
        body = nest("prod", body)
    elif op == "mean":
        n = ONE
        for d in red:
            n = mul(n, dim_n(d))
        body = div(nest("sum", body), n)
        k = "c" if k == "c" else "f"
    elif op in ("max", "min"):
        if red:
            n = ONE
            for d in red:
                n = mul(n, dim_n(d))
            if initial is None:
                I.abort(st, eq(n, ZERO), "ValueError")
        if initial is not None:
            body = maxmin(op, initial, nest("b" + op, body)) if isc(ONE) else body
        else:
            body = nest("b" + op, num(body))
    elif op == "any":
        body = nest("any", tm._bool(body)) if red else tm._bool(body)
        k = "b"
    elif op == "all":
        body = not_(nest("any", not_(tm._bool(body)))) if red else tm._bool(body)
        k = "b"
    elif op in ("argmax", "argmin"):
        if red:
            body = nest(op, num(body))
            body = _int_sort(body)
        else:
            body = ZERO
        k = "i"
    elif op in ("std", "var"):
        n = ONE
        for d in red:
            n = mul(n, dim_n(d))
        mean = div(nest("sum", body), n)
        body = div(nest("sum", power(fn("abs", sub(body, mean)), TWO)), n)
        if op == "std":
            body = sqrt(body)
        k = "f"
    elif op == "ptp":
        body = sub(nest("bmax", body), nest("bmin", body))
    else:
        raise Unsupported("reduction " + op)
    dims = []
    for i, d in enumerate(c.dims):
        if i in ax:
            if keep:
                dims.append(rng(ONE))
        else:
            dims.append(d)
    return ArrC(dims, body, k)


def _int_sort(t):
    if t.op in ("argmax", "argmin"):
        return retag(t, "i")
    return t


def retag(t, sort):
    if t.sort == sort:
        return t
    r = mk(t.op, t.args + (sort,), sort) if False else t
    return r


# ------------------------------------------------------------------ shapes
def expand_dims_list(c):
    """flat list of (var, size) with composite rectangular axes split"""
    out = []
    for d in c.dims:
        if d.rect():
            out += [(v, h, d) for v, h in zip(d.vars, d.his)]
        else:
            out.append((d.vars, d.size(), d))
    return out


def reshape(I, c, shape, st):
    c = c.fresh()
    src = expand_dims_list(c)
    neg1 = [i for i, s in enumerate(shape) if isc(s) and cval(s) == -1]
    total = ONE
    for _, h, _ in src:
        total = mul(total, h)
    shape = list(shape)
    if neg1:
        rest = ONE
        for i, s in enumerate(shape):
            if i != neg1[0]:
                rest = mul(rest, s)
        shape[neg1[0]] = total if rest is ONE else div(total, rest)
    want = ONE
    for s in shape:
        want = mul(want, s)
    if want is not total:
        I.abort(st, not_(eq(want, total)), "ValueError")
    # greedy grouping
    src = [s for s in src if s[1] is not ONE]
    zero = {v: ZERO for d in c.dims for v in d.vars if d.simple() and d.his[0] is ONE}
    body = subst(c.body, zero)
    dims = []
    i = 0
    ok = True
    for s in shape:
        if s is ONE:
            dims.append(rng(ONE))
            continue
        p = ONE
        grp = []
        while p is not s and i < len(src):
            p = mul(p, src[i][1])
            grp.append(src[i])
            i += 1
        if p is not s:
            ok = False
            break
        dom = None
        for v, h, d in grp:
            x = d if isinstance(v, tuple) else Dom("r", (v,), (ZERO,), (h,))
            dom = x if dom is None else dom.product(x)
            if dom is None:
                ok = False
                break
        dims.append(dom)
    if ok and i == len(src):
        return ArrC(dims, body, c.k)
    # generic: go through the flat position
    nd = [rng(s) for s in shape]
    pos = ZERO
    for d, s in zip(nd, shape):
        pos = add(mul(pos, s), d.vars[0])
    m = {}
    rem = pos
    for v, h, d in src[::-1]:
        if isinstance(v, tuple):
            raise Unsupported("reshape of a filtered axis")
        m[v] = fn("mod", rem, h)
        rem = fn("floordiv", rem, h)
    return ArrC(nd, subst(body, m), c.k)


def flatten(c):
    c = c.fresh()
    if len(c.dims) == 1:
        return c
    if not c.dims:
        return ArrC((rng(ONE),), c.body, c.k)
    zero = {}
    dom = None
    for d in c.dims:
        if one(d):
            zero[d.vars[0]] = ZERO
            continue
        dom = d if dom is None else dom.product(d)
        if dom is None:
            raise Unsupported("flatten of unordered axes")
    if dom is None:
        dom = rng(ONE)
    return ArrC((dom,), subst(c.body, zero), c.k)


def transpose(c, axes=None):
    c = c.fresh()
    n = len(c.dims)
    axes = list(range(n))[::-1] if axes is None else [a % n for a in axes]
    return ArrC([c.dims[a] for a in axes], c.body, c.k)


def shape_of(c):
    r = Tup([S(dim_n(d), "i") for d in c.dims])
    r.thin = c.thin
    return r


def shape_arg(I, v, st):
    if isinstance(v, S):
        return [v.t]
    items = I.concrete_items(v, st)
    if items is None:
        raise Unsupported("symbolic shape")
    return [num(x.t) for x in items]


def shape_dims(I, v, st):
    """dims for a shape value; preserves composite axes when shape came from an array"""
    ts = shape_arg(I, v, st)
    for t in ts:
        I.abort(st, lt(t, ZERO), "ValueError")
    return [rng(t) for t in ts]


def matmul(I, a, b, st):
    a, b = a.fresh(), b.fresh()
    if not a.dims or not b.dims:
        I.abort(st, TRUE, "ValueError")
    k = kjoin(a.k, b.k)
    ka = a.dims[-1]
    kb = b.dims[-2] if len(b.dims) > 1 else b.dims[0]
    m = {}
    if ka == kb:
        m = dict(zip(kb.vars, ka.vars))
    else:
        I.abort(st, not_(eq(dim_n(ka), dim_n(kb))), "ValueError")
        m = align(kb, ka)
    bb = subst(b.body, m)
    la = a.dims[:-2] if len(a.dims) > 1 else ()
    ra = (a.dims[-2],) if len(a.dims) > 1 else ()
    lb = b.dims[:-2] if len(b.dims) > 1 else ()
    rb = (b.dims[-1],) if len(b.dims) > 1 else ()
    if la or lb:
        nd, maps = broadcast_dims(I, [ArrC(la, ZERO, "i"), ArrC(lb, ZERO, "i")], st)
        body = bind("sum", ka, mul(subst(a.body, maps[0]), subst(bb, maps[1])))
        return ArrC(tuple(nd) + ra + rb, body, k)
    return ArrC(ra + rb, bind("sum", ka, mul(a.body, bb)), k)


def concatenate(I, parts, axis, st):
    parts = [p.fresh() for p in parts]
    nd = len(parts[0].dims)
    if any(len(p.dims) != nd for p in parts) or nd == 0:
        I.abort(st, TRUE, "ValueError")
    axis %= nd
    k = parts[0].k
    for p in parts[1:]:
        k = kjoin(k, p.k)
    ref = parts[0]
    off = []
    o = ZERO
    bodies = []
    for p in parts:
        m = {}
        for i, (d, r) in enumerate(zip(p.dims, ref.dims)):
            if i == axis or p is ref:
                continue
            if d == r:
                m.update(zip(d.vars, r.vars))
            else:
                I.abort(st, not_(eq(dim_n(d), dim_n(r))), "ValueError")
                m.update(align(d, r))
        bodies.append((p.dims[axis], subst(p.body, m)))
        off.append(o)
        o = add(o, dim_n(p.dims[axis]))
    if len(parts) == 1:
        return parts[0]
    nd_ = rng(o)
    v = nd_.vars[0]
    body = None
    for (d, b), f in list(zip(bodies, off))[::-1]:
        x = nth_of(d, sub(v, f), b)
        body = x if body is None else ite(lt(v, add(f, dim_n(d))), x, body)
    dims = list(ref.dims)
    dims[axis] = nd_
    return ArrC(dims, body, k)


def stack(I, parts, axis, st):
    parts = [p.fresh() for p in parts]
    nd = len(parts[0].dims)
    ref = parts[0]
    k = ref.k
    d0 = rng(const(len(parts)))
    bodies = []
    for p in parts:
        if len(p.dims) != nd:
            I.abort(st, TRUE, "ValueError")
        k = kjoin(k, p.k)
        m = {}
        for d, r in zip(p.dims, ref.dims):
            if d == r:
                m.update(zip(d.vars, r.vars))
            else:
                I.abort(st, not_(eq(dim_n(d), dim_n(r))), "ValueError")
                m.update(align(d, r))
        bodies.append(subst(p.body, m))
    body = bodies[-1]
    for i in range(len(bodies) - 2, -1, -1):
        body = ite(eq(d0.vars[0], const(i)), bodies[i], body)
    axis %= nd + 1
    dims = list(ref.dims)
    dims.insert(axis, d0)
    return ArrC(dims, body, k)


def part_list(I, v, st):
    """array parts of a sequence argument; None + stacked array when symbolic"""
    items = I.concrete_items(v, st)
    if items is None:
        return None
    return [I.arr(x, st) for x in items]


def promote(c, n):
    while len(c.dims) < n:
        c = ArrC((rng(ONE),) + c.dims, c.body, c.k)
    return c


# ------------------------------------------------------------------ elementwise functions
def fk(*ks):
    k = ks[0]
    for x in ks[1:]:
        k = kjoin(k, x)
    return "c" if k == "c" else "f"


def jk(*ks):
    k = ks[0]
    for x in ks[1:]:
        k = kjoin(k, x)
    return k


def ik(*ks):
    k = jk(*ks)
    return "i" if k == "b" else k


def bk(*ks):
    return "b"


def realk(k):
    return {"c": "f"}.get(k, k)


def _mk1(n):
    return lambda x: fn(n, num(x))


UF = {}
for _n in ("sin", "cos", "tan", "exp", "log", "arccos", "arcsin", "arctan", "sinh", "cosh", "tanh", "log10", "log2", "log1p", "expm1",
           "arcsinh", "arccosh", "arctanh", "cbrt"):
    UF[_n] = (_mk1(_n), fk)
UF["log2"] = (lambda x: div(fn("log", x), fn("log", TWO)), fk)
UF["log1p"] = (lambda x: fn("log", add(ONE, x)), fk)
UF["expm1"] = (lambda x: sub(fn("exp", x), ONE), fk)
for _a, _b in (("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan")):
    UF[_a] = UF[_b]
UF["sqrt"] = (lambda x: sqrt(num(x)), fk)
UF["square"] = (lambda x: power(num(x), TWO), ik)
UF["reciprocal"] = (lambda x: power(num(x), NEG1), fk)
UF["abs"] = UF["absolute"] = UF["fabs"] = (lambda x: fn("abs", num(x)), lambda k: realk(k))
UF["negative"] = (lambda x: neg(num(x)), ik)
UF["positive"] = (lambda x: num(x), ik)
UF["conj"] = UF["conjugate"] = (lambda x: fn("conj", num(x)), ik)
UF["real"] = (lambda x: fn("re", num(x)), lambda k: realk(k))
UF["imag"] = (lambda x: fn("im", num(x)), lambda k: realk(k))
UF["angle"] = (lambda x: fn("arctan2", fn("im", num(x)), fn("re", num(x))), lambda k: "f")
UF["rad2deg"] = UF["degrees"] = (lambda x: fn("rad2deg", num(x)), fk)
UF["deg2rad"] = UF["radians"] = (lambda x: fn("deg2rad", num(x)), fk)
UF["floor"] = (lambda x: fn("floor", num(x)), lambda k: "f" if k != "i" else k)
UF["ceil"] = (lambda x: fn("ceil", num(x)), lambda k: "f" if k != "i" else k)
UF["trunc"] = UF["fix"] = (lambda x: fn("trunc", num(x)), lambda k: "f" if k != "i" else k)
UF["rint"] = (lambda x: fn("round", num(x)), fk)
UF["sign"] = (lambda x: fn("sign", num(x)), ik)
UF["isnan"] = (lambda x: fn("isnan", num(x)) if not (num(x).op == "c" or num(x).sort == "i") else FALSE, bk)
UF["isinf"] = (lambda x: fn("isinf", num(x)), bk)
UF["isfinite"] = (lambda x: fn("isfinite", num(x)), bk)
UF["logical_not"] = (lambda x: not_(tm._bool(x)), bk)
UF["invert"] = (lambda x: not_(x) if x.sort == "b" else sub(NEG1, x), jk)
UF["add"] = (lambda x, y: add(x, y), ik)
UF["subtract"] = (lambda x, y: sub(num(x), num(y)), ik)
UF["multiply"] = (lambda x, y: mul(x, y), ik)
UF["divide"] = UF["true_divide"] = (lambda x, y: div(num(x), num(y)), fk)
UF["power"] = UF["float_power"] = (lambda x, y: power(num(x), num(y)), ik)
UF["pow"] = UF["power"]
UF["mod"] = UF["remainder"] = (lambda x, y: fn("mod", num(x), num(y)), ik)
UF["floor_divide"] = (lambda x, y: fn("floordiv", num(x), num(y)), ik)
UF["arctan2"] = UF["atan2"] = (lambda x, y: fn("arctan2", num(x), num(y)), fk)
UF["hypot"] = (lambda x, y: sqrt(add(power(num(x), TWO), power(num(y), TWO))), fk)
UF["maximum"] = UF["fmax"] = (lambda x, y: tmax(num(x), num(y)), jk)
UF["minimum"] = UF["fmin"] = (lambda x, y: tmin(num(x), num(y)), jk)
UF["logical_and"] = (lambda x, y: and_(tm._bool(x), tm._bool(y)), bk)
UF["logical_or"] = (lambda x, y: or_(tm._bool(x), tm._bool(y)), bk)
UF["logical_xor"] = (lambda x, y: not_(eq(tm._bool(x), tm._bool(y))), bk)
for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE")):
    UF[_n] = ((lambda o: lambda x, y: CMP[o](num(x), num(y)))(_o), bk)
UF["copysign"] = (lambda x, y: mul(fn("abs", num(x)), ite(lt(num(y), ZERO), NEG1, ONE)), fk)
UF["heaviside"] = (lambda x, y: ite(lt(num(x), ZERO), ZERO, ite(eq(num(x), ZERO), num(y), ONE)), fk)

SPF = {
    "scipy.special.lpmv": lambda m, l, x: fn("lpmv", num(m), num(l), num(x)),
    "scipy.special.lambertw": lambda z, k=ZERO, tol=None: fn("lambertw" if num(z).sort == "c" else "lambertw_r", num(z), num(k)),
    "scipy.special.factorial": lambda n, exact=None: fn("factorial", num(n)),
    "scipy.special.sph_harm": lambda m, n, a, p: fn("sph_harm", num(m), num(n), num(a), num(p)),
    "scipy.special.sph_harm_y": lambda n, m, p, a: fn("sph_harm", num(m), num(n), num(a), num(p)),
    "scipy.special.gamma": lambda x: fn("factorial", sub(num(x), ONE)),
    "scipy.special.gammaln": lambda x: fn("log", fn("factorial", sub(num(x), ONE))),
    "scipy.special.poch": lambda a, b: div(fn("factorial", sub(add(num(a), num(b)), ONE)), fn("factorial", sub(num(a), ONE))),
}
SPK = {"scipy.special.lambertw": "c", "scipy.special.sph_harm": "c", "scipy.special.sph_harm_y": "c"}

MATH1 = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "log", "acos": "arccos", "asin": "arcsin",
         "atan": "arctan", "log10": "log10", "radians": "deg2rad", "degrees": "rad2deg", "fabs": "abs", "sinh": "sinh", "cosh": "cosh",
         "tanh": "tanh"}

CONSTS = {"numpy.pi": (PI, "f"), "math.pi": (PI, "f"), "numpy.nan": (NAN, "f"), "numpy.inf": (INF, "f"), "math.inf": (INF, "f"),
          "math.nan": (NAN, "f"), "numpy.e": (fn("exp", ONE), "f"), "math.e": (fn("exp", ONE), "f"),
          "math.tau": (mul(TWO, PI), "f"), "numpy.NaN": (NAN, "f"), "cmath.pi": (PI, "f"), "scipy.pi": (PI, "f"),
          "scipy.constants.pi": (PI, "f")}
declare("phys_mp", "r", pos=True, hidden=True, dist=lambda r, idx, I: 1.67262192369e-27)
declare("phys_G", "r", pos=True, hidden=True, dist=lambda r, idx, I: 6.6743e-11)
declare("phys_k", "r", pos=True, hidden=True, dist=lambda r, idx, I: 1.380649e-23)
for _m in ("proton_mass", "m_p"):
    CONSTS["scipy.constants." + _m] = (atom("phys_mp"), "f")
for _m in ("gravitational_constant", "G"):
    CONSTS["scipy.constants." + _m] = (atom("phys_G"), "f")
for _m in ("Boltzmann", "k"):
    CONSTS["scipy.constants." + _m] = (atom("phys_k"), "f")

DTYPES = {"float64": "f", "float32": "f", "float_": "f", "double": "f", "longdouble": "f", "int64": "i", "int32": "i", "int_": "i", "intp": "i", "uint8": "i",
          "int8": "i", "int16": "i", "uint64": "i", "uint32": "i", "complex128": "c", "complex64": "c", "complex_": "c", "bool_": "b", "bool": "b", "float": "f", "int": "i", "complex": "c",
          "f8": "f", "i8": "i", "c16": "c", "<f8": "f", "f4": "f"}
NOT_DT = {"numpy.floating", "numpy.integer", "numpy.number", "numpy.complexfloating", "numpy.ndarray", "numpy.generic"}


def battr(I, name, attr, st):
    full = name + "." + attr
    if full in CONSTS:
        t, k = CONSTS[full]
        return S(t, k)
    if full == "numpy.newaxis":
        return NONE
    if name == "numpy" and attr in DTYPES and attr not in ("bool", "float", "int", "complex"):
        return Dt(DTYPES[attr])
    if name == "os" and attr == "sep":
        return St("/")
    if full in ("os.linesep",):
        return St("\n")
    if full in ("numpy.__version__", "scipy.__version__"):
        return St(full)
    if name.startswith("builtins.") or name.startswith("exc."):
        if attr == "__name__":
            return St(name.split(".", 1)[1])
    return B(full)


def dtype_of(I, v):
    if v is None or v is NONE:
        return None
    if isinstance(v, Dt):
        return v.k
    if isinstance(v, B):
        n = v.name.split(".")[-1]
        if n in DTYPES:
            return DTYPES[n]
        if n == "object":
            raise Unsupported("object array")
    if isinstance(v, St) and v.const() in DTYPES:
        return DTYPES[v.const()]
    if isinstance(v, Gt):
        a, b = dtype_of(I, v.a), dtype_of(I, v.b)
        if a == b:
            return a
        return kjoin(a, b)
    raise Unsupported("dtype %r" % (v,))


ND_NAMES = frozenset("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod
cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemsize mT max mean min nbytes ndim nonzero partition
prod put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device
tobytes tofile tolist trace transpose var view conjugate bit_length is_integer as_integer_ratio hex""".split())


def ufunc(I, name, args, kw, st):
    f, kr = UF[name]
    n = 1 if name in UN1 else 2
    if any(a is NONE for a in args[:n]) and name not in ("equal", "not_equal", "logical_and", "logical_or", "logical_xor", "logical_not"):
        I.abort(st, TRUE, "TypeError")
    conts = [I.arr(a, st) for a in args[:n]]
    outv = kw.get("out", NONE)
    if len(args) > n:
        outv = args[n]
    if isinstance(outv, Tup):
        outv = outv.items[0]
    where = kw.get("where")
    dt = dtype_of(I, kw.get("dtype"))
    k = kr(*[c.k for c in conts])
    if name == "power" and k == "i" and len(conts) == 2 and not nonneg(conts[1].body) and conts[0].body is not NEG1:
        bad = lt(conts[1].body, ZERO)
        for d in conts[1].dims[::-1]:
            bad = tany(d, bad)
        I.abort(st, bad, "ValueError")
    cs = list(conts)
    if where is not None and not (isinstance(where, S) and where.t is TRUE):
        cs.append(I.arr(where, st))
    has_w = len(cs) > len(conts)
    if outv is not NONE:
        oc = I.content(outv, st)
        cs2 = cs + [oc]
        dims, maps = broadcast_dims(I, cs2, st)
        bodies = [subst(c.body, m) for c, m in zip(cs2, maps)]
        val = f(*bodies[:len(conts)])
        if has_w:
            val = ite(tm._bool(bodies[len(conts)]), I_cast(val, k, oc.k), bodies[-1])
        if "bifc".index(k) > "bifc".index(oc.k):
            I.abort(st, TRUE, "TypeError")
        r = broadcast_to(I, ArrC(dims, val, oc.k), oc.dims, st)
        I.write_content(outv, r, st)
        return outv
    c = elem(I, (lambda *b: ite(tm._bool(b[-1]), f(*b[:-1]), opaque("uninitialised element"))) if has_w else f, cs, st, k)
    if dt:
        c = ArrC(c.dims, I_cast(c.body, k, dt), dt)
    return I.back(c, st)


UN1 = {n for n, (f, k) in UF.items() if f.__code__.co_argcount == 1}


def isclose_term(I, a, b, rt, at, en):
    a, b = num(a), num(b)
    if a is b and en is TRUE:
        return TRUE
    return mk("isclose", (a, b, rt, at, en), "b")


def close_args(I, args, kw, st):
    rt = kw.get("rtol", args[2] if len(args) > 2 else S(const("1e-05" and F(1, 100000)), "f"))
    at = kw.get("atol", args[3] if len(args) > 3 else S(const(F(1, 10 ** 8)), "f"))
    en = kw.get("equal_nan", args[4] if len(args) > 4 else S(FALSE, "b"))
    return rt.t, at.t, I.truth(en, st)


from fractions import Fraction as F


# ------------------------------------------------------------------ vectorize
def lift_call(I, f, dims, st):
    """evaluate f() whose values mention the index variables of dims; failures are lifted"""
    n0 = len(I.aborts)
    pc0 = st.pc
    st.pc = and_(pc0, *[c for d in dims for c in conjuncts(d.cond)])
    r = f()
    extra = [c for c in conjuncts(st.pc) if c not in set(conjuncts(pc0))]
    mine = I.aborts[n0:]
    del I.aborts[n0:]
    pc = pc0
    for c, kind, w in mine:
        for d in dims[::-1]:
            c = tany(d, c)
        if c is not FALSE:
            I.aborts.append((c, kind, w))
            pc = and_(pc, not_(c))
    st.pc = pc
    return r


def vectorize_call(I, fnv, args, kw, st):
    excl = set()
    conts = [I.arr(a, st) if not isinstance(a, (St, FnV, ClsV, B, Partial)) else None for a in args]
    idx = [i for i, c in enumerate(conts) if c is not None]
    dims, maps = broadcast_dims(I, [conts[i] for i in idx], st)
    call = list(args)
    for i, m in zip(idx, maps):
        call[i] = S(subst(conts[i].body, m), conts[i].k, True)
    st2 = st
    r = lift_call(I, lambda: I.call(fnv, call, kw, st2), dims, st)
    def wrap(x):
        if isinstance(x, Gt):
            try:
                x = I.back(I.arr(x, st), st)
            except Unsupported:
                return x
        if isinstance(x, (Ref, View, Cell)):
            c = I.arr(x, st)
            if not c.dims:
                x = S(c.body, c.k, True)
        if isinstance(x, S):
            if not dims:
                return I.new(st, ArrC((), x.t, x.k))
            return I.arr_new(st, dims, x.t, x.k)
        if isinstance(x, Un):
            return x
        raise Unsupported("vectorize of %r" % (x,))
    if isinstance(r, Tup):
        return Tup([wrap(x) for x in r.items])
    return wrap(r)


def ufn_call(I, f, args, kw, st):
    """uninterpreted numeric function: elementwise over its arguments"""
    if f.shape == "whole":
        parts = [as_term(I, a, st) for a in args]
        like = I.arr(args[0], st).fresh()
        t = mk("ufn", (f.name,) + tuple(parts) + tuple(v for d in like.dims for v in d.vars), "r" if f.k == "f" else "c")
        return I.back(ArrC(like.dims, t, f.k), st)
    c = elem(I, lambda *b: mk("ufn", (f.name,) + tuple(num(x) for x in b), "r" if f.k == "f" else "c"), [I.arr(a, st) for a in args], st, f.k)
    return I.back(c, st)


# ------------------------------------------------------------------ attributes
STRM = {"split", "strip", "format", "join", "lower", "upper", "startswith", "endswith", "replace", "rstrip", "lstrip", "splitlines",
        "title", "capitalize", "ljust", "rjust", "center", "find", "isdigit", "rfind", "partition", "rpartition", "rsplit", "zfill", "count",
        "index", "encode", "removesuffix", "removeprefix", "isspace", "expandtabs", "swapcase", "casefold"}


def getattr_(I, v, name, st):
    if isinstance(v, Un):
        return v
    if isinstance(v, S):
        if name == "real":
            return S(fn("re", num(v.t)), realk(v.k), v.np)
        if name == "imag":
            return S(fn("im", num(v.t)), realk(v.k), v.np)
        if name == "T":
            return v
        if name == "shape":
            if not v.np:
                I.abort(st, TRUE, "AttributeError")
            return Tup([])
        if name in ("size", "ndim") and v.np:
            return I_(1 if name == "size" else 0)
        if name == "dtype" and v.np:
            return Dt(v.k)
        if not v.np and name not in ("conjugate", "is_integer", "bit_length", "__class__", "numerator", "denominator"):
            I.abort(st, TRUE, "AttributeError")
        return BM(v, B("ndarray." + name))
    if isinstance(v, St):
        if name in STRM:
            return BM(v, B("str." + name))
        I.abort(st, TRUE, "AttributeError")
    if v is NONE:
        I.abort(st, TRUE, "AttributeError")
    if isinstance(v, Tup):
        return BM(v, B("tuple." + name))
    if isinstance(v, Partial):
        if v.fn in ("mapkeys",):
            return BM(v, B("set." + name))
        return BM(v, B("partial." + name))
    if isinstance(v, It):
        return BM(v, B("iter." + name))
    if isinstance(v, Dt):
        if name in ("type",):
            return v
        if name == "kind":
            return St(v.k if v.k != "b" else "b")
        return BM(v, B("dtype." + name))
    if isinstance(v, ExtO):
        return getattr_ext(I, v, name, st)
    if isinstance(v, (Ref, View, Cell, AV)):
        c = I.content(v, st)
        if isinstance(c, ArrC):
            if name == "shape":
                return shape_of(c)
            if name == "size":
                n = ONE
                for d in c.dims:
                    n = mul(n, dim_n(d))
                return S(n, "i")
            if name == "ndim":
                return I_(len(c.dims))
            if name == "T":
                return I.new(st, transpose(c))
            if name == "dtype":
                return Dt(c.k)
            if name in ("real", "imag"):
                if name == "real" and c.k != "c":
                    return v
                x = c.fresh()
                return I.new(st, ArrC(x.dims, fn("re" if name == "real" else "im", num(x.body)), realk(x.k)))
            if name == "flat":
                return I.new(st, flatten(c))
            if name == "__class__":
                return B("numpy.ndarray")
            return BM(v, B("ndarray." + name))
        if isinstance(c, ListC):
            return BM(v, B("list." + name))
        if isinstance(c, (DictC, MapC)):
            return BM(v, B("dict." + name))
        if isinstance(c, SetC):
            return BM(v, B("set." + name))
        if isinstance(c, S):
            return getattr_(I, c, name, st)
    if isinstance(v, BM):
        return Un("attribute of a method")
    raise Unsupported("attribute %s of %r" % (name, v))


KNOWN = {"len", "range", "enumerate", "zip", "sorted", "reversed", "list", "tuple", "dict", "set", "frozenset", "min", "max", "sum", "abs",
         "int", "float", "complex", "str", "bool", "print", "isinstance", "issubclass", "type", "round", "any", "all", "map", "filter", "getattr",
         "setattr", "hasattr", "open", "iter", "next", "super", "object", "property", "staticmethod", "classmethod", "format", "repr",
         "divmod", "pow", "id", "hash", "callable", "vars", "slice", "NotImplemented", "Ellipsis", "__name__", "__file__", "input", "exit",
         "quit", "delattr", "bytes", "memoryview", "chr", "ord", "__debug__", "__import__", "globals", "locals", "dir"}


def known_builtin(n):
    return n in KNOWN or n.startswith("vc_")


def battr_value(name):
    return None


# ------------------------------------------------------------------ calls
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


IGNORED = ("logging.", "warnings.", "logger.")


def call(I, name, args, kw, st, method=False):
    for p in args:
        if isinstance(p, Partial) and p.fn == "star" and name not in ("builtins.zip",):
            raise Unsupported("star argument of symbolic length in %s" % name)
    h = HANDLERS.get(name)
    if h is not None:
        if not getattr(h, "rawun", False):
            for v in list(args) + list(kw.values()):
                u = has_un(v)
                if u:
                    return Un(u.why)
        return h(I, args, kw, st)
    if name.startswith("numpy."):
        n = name[6:]
        for v in list(args) + list(kw.values()):
            u = has_un(v)
            if u:
                return Un(u.why)
        if n in UF:
            return ufunc(I, n, args, kw, st)
        if n.split(".")[0] in UF and "." in n:
            if n.endswith(".outer") and len(args) == 2 and not kw:
                a, b = I.arr(args[0], st), I.arr(args[1], st)
                x = getitem_any(I, I.back(a, st), Tup([Sl(NONE, NONE, NONE)] * len(a.dims) + [NONE] * len(b.dims)), st) if b.dims else I.back(a, st)
                return ufunc(I, n[:-6], [x, I.back(b, st)], {}, st)
            if n in ("add.reduce", "maximum.reduce", "minimum.reduce", "multiply.reduce", "logical_and.reduce", "logical_or.reduce"):
                r = {"add": "sum", "maximum": "max", "minimum": "min", "multiply": "prod", "logical_and": "all", "logical_or": "any"}[n.split(".")[0]]
                k2 = dict(kw)
                if len(args) < 2:
                    k2.setdefault("axis", I_(0))
                return call(I, "numpy." + r, args, k2, st)
            raise Unsupported("ufunc method " + name)
    if name.startswith(("builtins.set.", "builtins.dict.", "builtins.list.", "builtins.str.", "builtins.frozenset.", "builtins.tuple.")) \
            and not name.endswith("fromkeys"):
        if not args:
            I.abort(st, TRUE, "TypeError")
        _, ty, mname = name.split(".", 2)
        ty = "set" if ty == "frozenset" else ty
        if isinstance(args[0], Ref) and isinstance(I.content(args[0], st), (ListC,)) and ty == "set":
            args = [make_set(I, args[0], st)] + list(args[1:])
        if ty == "str":
            return call(I, "str." + mname, args, kw, st, True)
        return call(I, ty + "." + mname, args, kw, st, True)
    if name.startswith("math.") or name.startswith("cmath."):
        for v in args:
            u = has_un(v)
            if u:
                return Un(u.why)
        return math_call(I, name, args, kw, st)
    if name in SPF:
        for v in args:
            u = has_un(v)
            if u:
                return Un(u.why)
        conts = [I.arr(a, st) for a in args]
        k = SPK.get(name, "f")
        c = elem(I, SPF[name], conts, st, k)
        return I.back(c, st)
    if name.startswith(IGNORED) or name.startswith("logging"):
        return ExtO("logger")
    if name.startswith("exc."):
        return Un("exception object")
    if name in ("function.cache_info", "function.cache_parameters"):
        return Un("cache statistics")
    if name.startswith("function."):
        raise Unsupported(name)
    if method and name.startswith(("ndarray.", "str.", "list.", "dict.", "set.", "tuple.", "iter.")):
        for v in list(args) + list(kw.values()):
            u = has_un(v)
            if u:
                return Un(u.why)
        if name.startswith("ndarray."):
            n = name[8:]
            alias = HANDLERS.get("numpy." + n)
            if alias is not None:
                return alias(I, args, kw, st)
            if n in UF:
                return ufunc(I, n, args, kw, st)
            v = args[0] if args else None
            if n not in ND_NAMES and not n.startswith("__") and isinstance(v, (Ref, AV, View, Cell, S)) and not isinstance(I.content(v, st) if not isinstance(v, S) else None, ListC):
                I.abort(st, TRUE, "AttributeError")
        if name.startswith("str."):
            return str_method(I, name[4:], args, kw, st)
        raise Unsupported("method " + name)
    if name.startswith(("numpy.", "scipy.", "builtins.", "itertools.", "functools.", "collections.", "re.")):
        raise Unsupported("call of %s" % name)
    return ext_call(I, None, name, args, kw, st)


QUIET = {"logger"}


def ext_call(I, obj, name, args, kw, st):
    path = name if name else obj.path
    if path.startswith("logger"):
        return ExtO("logger")
    return call_ext(I, path, obj.key if obj is not None else None, args, kw, st)


def need_unroll():
    from .loops import NeedUnroll
    return NeedUnroll()


def math_call(I, name, args, kw, st):
    n = name.split(".")[1]
    if name == "cmath.polar":
        x = args[0]
        return Tup([S(fn("abs", num(x.t)), "f"), S(fn("arctan2", fn("im", num(x.t)), fn("re", num(x.t))), "f")])
    if name == "cmath.rect":
        r, p = args[0].t, args[1].t
        return S(mul(num(r), add(fn("cos", num(p)), mul(IM, fn("sin", num(p))))), "c")
    if name == "cmath.exp":
        return S(fn("exp", num(args[0].t)), "c")
    if n in ("pow", "hypot", "atan2", "copysign", "fmod"):
        m = {"pow": "power", "atan2": "arctan2", "fmod": "mod"}.get(n, n)
        return S(UF[m][0](args[0].t, args[1].t), "f")
    if n == "factorial":
        x = num(args[0].t)
        I.abort(st, lt(x, ZERO), "ValueError")
        return S(fn("factorial", x), "i")
    if n in ("floor", "ceil", "trunc"):
        return S(fn(n, num(args[0].t)), "i")
    if n == "isclose":
        rt = kw.get("rel_tol", S(const(F(1, 10 ** 9)), "f")).t
        at = kw.get("abs_tol", S(ZERO, "f")).t
        a, b = num(args[0].t), num(args[1].t)
        return S(le(fn("abs", sub(a, b)), tmax(mul(rt, tmax(fn("abs", a), fn("abs", b))), at)), "b")
    if n in ("isnan", "isinf", "isfinite"):
        return S(fn(n, num(args[0].t)), "b")
    if n == "comb":
        a, b = num(args[0].t), num(args[1].t)
        return S(div(fn("factorial", a), mul(fn("factorial", b), fn("factorial", sub(a, b)))), "i")
    if n in MATH1:
        x = args[0]
        if not isinstance(x, S):
            c = I.arr(x, st)
            if c.dims and not all(one(d) for d in c.dims):
                I.abort(st, TRUE, "TypeError")
            x = S(c.at([(ZERO,) for _ in c.dims]), c.k)
        if n == "sqrt" and name.startswith("math"):
            I.abort(st, lt(num(x.t), ZERO), "ValueError")
        if n == "log" and len(args) > 1:
            return S(div(fn("log", num(x.t)), fn("log", num(args[1].t))), "f")
        return S(fn(MATH1[n], num(x.t)), "c" if name.startswith("cmath") else "f")
    if n == "fsum":
        return HANDLERS["builtins.sum"](I, args, kw, st)
    if n == "gamma":
        return S(fn("factorial", sub(num(args[0].t), ONE)), "f")
    raise Unsupported("call of %s" % name)


def arg(args, kw, i, name, default=NONE):
    if name in kw:
        return kw[name]
    return args[i] if len(args) > i else default


# ---- reductions
def _reduction(op):
    def h(I, args, kw, st):
        a = args[0]
        axis = arg(args, kw, 1, "axis")
        keep = I.truth(kw.get("keepdims", S(FALSE, "b")), st) is TRUE
        c = I.arr(a, st)
        if isinstance(axis, Gt):
            raise Unsupported("computed axis")
        if isinstance(axis, S) and not isc(axis.t):
            raise Unsupported("computed axis")
        ini = kw.get("initial")
        wh = kw.get("where")
        w = None
        if wh is not None:
            c2 = elem(I, lambda x, y: x, [c, I.arr(wh, st)], st, c.k)
            w2 = elem(I, lambda x, y: tm._bool(y), [c, I.arr(wh, st)], st, "b")
            m = {}
            for p, q in zip(w2.dims, c2.dims):
                m.update(zip(p.vars, q.vars))
            if op != "sum":
                raise Unsupported("where= in %s" % op)
            c = ArrC(c2.dims, ite(subst(w2.body, m), num(c2.body), ZERO), c.k)
        r = reduce_(I, op, c, axis, keep, st, None, ini.t if ini is not None and ini is not NONE else None)
        if op == "sum" and kw.get("dtype") is not None:
            r = ArrC(r.dims, r.body, dtype_of(I, kw["dtype"]) or r.k)
        return I.back(r, st)
    return h


for _op in ("sum", "prod", "mean", "max", "min", "any", "all", "argmax", "argmin", "std", "var", "ptp"):
    HANDLERS["numpy." + _op] = _reduction(_op)
HANDLERS["numpy.amax"] = HANDLERS["numpy.max"]
HANDLERS["numpy.amin"] = HANDLERS["numpy.min"]
HANDLERS["numpy.product"] = HANDLERS["numpy.prod"]


@handler("numpy.average")
def _average(I, args, kw, st):
    a = I.arr(args[0], st)
    w = arg(args, kw, 2, "weights")
    axis = arg(args, kw, 1, "axis")
    if w is NONE:
        return I.back(reduce_(I, "mean", a, axis, False, st), st)
    wc = I.arr(w, st)
    n1 = I.back(reduce_(I, "sum", elem(I, mul, [a, wc], st, kjoin(a.k, wc.k)), axis, False, st), st)
    wb = elem(I, lambda x, y: y, [a, wc], st, wc.k)
    n2 = I.back(reduce_(I, "sum", wb, axis, False, st), st)
    return binop(I, "Div", n1, n2, st)


@handler("numpy.nansum")
def _nansum(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    c = ArrC(c.dims, ite(fn("isnan", num(c.body)), ZERO, c.body), c.k)
    return I.back(reduce_(I, "sum", c, arg(args, kw, 1, "axis"), False, st), st)


@handler("numpy.trapz", "numpy.trapezoid")
def _trapz(I, args, kw, st):
    raise Unsupported("trapezoid rule")


@handler("numpy.linalg.norm")
def _norm(I, args, kw, st):
    if arg(args, kw, 1, "ord") is not NONE:
        raise Unsupported("norm order")
    c = I.arr(args[0], st).fresh()
    b = power(fn("abs", num(c.body)), TWO) if c.k == "c" else power(num(c.body), TWO)
    keep = I.truth(kw.get("keepdims", S(FALSE, "b")), st) is TRUE
    r = reduce_(I, "sum", ArrC(c.dims, b, "f"), arg(args, kw, 2, "axis"), keep, st)
    return I.back(ArrC(r.dims, sqrt(r.body), "f"), st)


@handler("numpy.cumsum")
def _cumsum(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    axis = arg(args, kw, 1, "axis")
    if len(c.dims) != 1:
        raise Unsupported("cumsum of many axes")
    c = plain(c, 0)
    d = c.dims[0]
    e = d.inst()
    j = Dom.range(ZERO, add(d.vars[0], ONE))
    return I.back(ArrC((d,), bind("sum", j, subst(num(c.body), {d.vars[0]: j.vars[0]})), c.k if c.k != "b" else "i"), st)


@handler("numpy.count_nonzero")
def _cnz(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    return I.back(reduce_(I, "sum", ArrC(c.dims, ite(tm._bool(c.body), ONE, ZERO), "i"), arg(args, kw, 1, "axis"), False, st), st)


# ---- creation
def _filled(t):
    def h(I, args, kw, st):
        k = dtype_of(I, arg(args, kw, 1, "dtype")) or "f"
        v = t() if callable(t) else t
        if k == "b":
            v = tm._bool(v)
        return I.arr_new(st, shape_dims(I, args[0] if args else kw["shape"], st), v, k)
    return h


HANDLERS["numpy.zeros"] = _filled(ZERO)
HANDLERS["numpy.ones"] = _filled(ONE)
HANDLERS["numpy.empty"] = _filled(lambda: opaque("uninitialised element"))


@handler("numpy.full")
def _full(I, args, kw, st):
    v = I.arr(arg(args, kw, 1, "fill_value"), st)
    k = dtype_of(I, arg(args, kw, 2, "dtype")) or v.k
    dims = shape_dims(I, args[0] if args else kw["shape"], st)
    b = broadcast_to(I, v, dims, st)
    return I.arr_new(st, dims, I_cast(b.body, v.k, k), k)


def _like(t):
    def h(I, args, kw, st):
        c = I.arr(args[0], st).fresh()
        k = dtype_of(I, arg(args, kw, 1, "dtype")) or c.k
        dims = c.dims
        if "shape" in kw:
            dims = shape_dims(I, kw["shape"], st)
        v = t() if callable(t) else t
        return I.arr_new(st, dims, tm._bool(v) if k == "b" else v, k)
    return h


HANDLERS["numpy.zeros_like"] = _like(ZERO)
HANDLERS["numpy.ones_like"] = _like(ONE)
HANDLERS["numpy.empty_like"] = _like(lambda: opaque("uninitialised element"))


@handler("numpy.full_like")
def _full_like(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    v = I.arr(arg(args, kw, 1, "fill_value"), st)
    k = dtype_of(I, arg(args, kw, 2, "dtype")) or c.k
    b = broadcast_to(I, v, c.dims, st)
    return I.arr_new(st, c.dims, I_cast(b.body, v.k, k), k)


@handler("numpy.eye", "numpy.identity")
def _eye(I, args, kw, st):
    a = rng(args[0].t)
    b = rng(args[0].t)
    return I.arr_new(st, (a, b), ite(eq(a.vars[0], b.vars[0]), ONE, ZERO), dtype_of(I, kw.get("dtype")) or "f")


@handler("numpy.linspace")
def _linspace(I, args, kw, st):
    a, b = args[0], arg(args, kw, 1, "stop")
    n = arg(args, kw, 2, "num", I_(50))
    end = I.truth(arg(args, kw, 3, "endpoint", S(TRUE, "b")), st)
    if isinstance(kw.get("retstep"), S) and kw["retstep"].t is not FALSE:
        raise Unsupported("linspace retstep")
    nt = n.t
    if n.k in "fc":
        I.abort(st, TRUE, "TypeError")
    I.abort(st, lt(nt, ZERO), "ValueError")
    d = rng(nt)
    i = d.vars[0]
    den = ite(end, tmax(sub(nt, ONE), ONE), nt)
    at, bt = num(a.t), num(b.t)
    body = add(at, mul(sub(bt, at), i, power(den, NEG1)))
    k = kjoin("f", kjoin(a.k, b.k))
    if kw.get("dtype"):
        k2 = dtype_of(I, kw["dtype"])
        body, k = I_cast(body, k, k2), k2
    return I.arr_new(st, (d,), body, k)


@handler("numpy.arange")
def _arange(I, args, kw, st):
    v = [a for a in args]
    if len(v) == 1:
        a, b, s = I_(0), v[0], I_(1)
    else:
        a, b, s = v[0], v[1], (v[2] if len(v) > 2 else kw.get("step", I_(1)))
    k = jk(a.k, b.k, s.k)
    n = fn("ceil", div(sub(num(b.t), num(a.t)), num(s.t)))
    if not nonneg(n):
        n = tmax(n, ZERO)
    d = rng(n)
    k2 = dtype_of(I, kw.get("dtype")) or k
    return I.arr_new(st, (d,), add(num(a.t), mul(num(s.t), d.vars[0])), k2)


def to_array(I, v, st):
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ListC):
        return seq_array(I, st.heap[v.id].segs, st)
    if isinstance(v, It) and v.src == "range":
        return seq_array(I, v.segs, st)
    if isinstance(v, It):
        raise Unsupported("array of an iterator")
    return I.arr(v, st)


def seq_array(I, segs, st):
    """np.array of a sequence (nested lists included)"""
    return I.arr_from_segs(segs, st)


@handler("numpy.array")
def _array(I, args, kw, st):
    v = args[0]
    if isinstance(v, Partial) and v.fn == "mapkeys":
        v = HANDLERS["builtins.list"](I, [v], {}, st)
    c = to_array(I, v, st).fresh()
    k = dtype_of(I, arg(args, kw, 1, "dtype"))
    if k and k != c.k:
        c = ArrC(c.dims, I_cast(c.body, c.k, k), k)
    nd = kw.get("ndmin")
    if nd is not None:
        c = promote(c, const_of(nd))
    if isinstance(kw.get("copy"), S) and kw["copy"].t is FALSE and isinstance(v, Ref) and (not k or k == I.content(v, st).k):
        return v
    if len(c.dims) > 1 and isinstance(v, (Ref, View, Cell)) and isinstance(I.content(v, st), ListC):
        none = eq(dim_n(c.dims[0]), ZERO)
        if none is not FALSE:
            c = ArrC(c.dims, c.body, c.k, none)
    return I.new(st, c)


@handler("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfarray")
def _asarray(I, args, kw, st):
    v = args[0]
    k = dtype_of(I, arg(args, kw, 1, "dtype"))
    if isinstance(v, Gt) and isarr(I, v, st):
        return gate_apply(I, v.c, lambda s: _asarray(I, [v.a] + list(args[1:]), kw, s), lambda s: _asarray(I, [v.b] + list(args[1:]), kw, s), st)
    if isinstance(v, (Ref, View, Cell)) and isinstance(I.content(v, st), ArrC):
        if not k or k == I.content(v, st).k:
            return v
    return _array(I, args, kw, st)


@handler("numpy.atleast_1d")
def _atleast1(I, args, kw, st):
    if len(args) > 1:
        return Tup([_atleast1(I, [a], kw, st) for a in args])
    if isinstance(args[0], ExtO):
        return I.lst(st, [args[0]])
    if objects(I, args[0], st):
        return args[0]
    return atleast(I, args[0], 1, st)


def objects(I, v, st):
    """sequence of external objects (axes handed out by the plotting library)"""
    if isinstance(v, Tup):
        return bool(v.items) and all(isinstance(x, ExtO) for x in v.items)
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ListC):
        c = st.heap[v.id]
        return c.concrete() and bool(c.segs) and all(isinstance(x, ExtO) for x in c.values())
    return False


@handler("numpy.atleast_2d")
def _atleast2(I, args, kw, st):
    return atleast(I, args[0], 2, st)


def atleast(I, v, n, st):
    if isinstance(v, Gt):
        return gate_apply(I, v.c, lambda s: atleast(I, v.a, n, s), lambda s: atleast(I, v.b, n, s), st)
    if isinstance(v, (Ref, View, Cell)) and isinstance(I.content(v, st), ArrC):
        c = I.content(v, st)
        if len(c.dims) >= n:
            return v
        items = Tup([NONE] * (n - len(c.dims)) + [ELL])
        return getitem(I, v, c, items, st)
    c = to_array(I, v, st).fresh()
    return I.new(st, promote(c, n))


@handler("numpy.copy", "copy.copy")
def _copy(I, args, kw, st):
    v = args[0]
    if isinstance(v, (S, St, Tup)) and False:
        return v
    c = I.content(v, st) if isinstance(v, (Ref, View, Cell, AV)) else None
    if isinstance(c, (ListC, DictC, MapC, SetC)):
        return I.new(st, c)
    if isinstance(c, ObjC):
        return I.new(st, ObjC(c.cls, c.attrs))
    return I.new(st, to_array(I, v, st).fresh())


@handler("copy.deepcopy")
def _deepcopy(I, args, kw, st):
    return deep(I, args[0], st, {})


def deep(I, v, st, memo):
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        c = st.heap[v.id]
        if isinstance(c, ArrC):
            r = I.new(st, c.fresh())
        elif isinstance(c, ListC):
            r = I.new(st, ListC([("i", deep(I, s[1], st, memo)) if s[0] == "i" else s for s in c.segs]))
        elif isinstance(c, DictC):
            r = I.new(st, DictC({k: deep(I, x, st, memo) for k, x in c.items.items()}))
        elif isinstance(c, MapC):
            r = I.new(st, MapC(c.l, c.m, c.has, c.val, frozenset(), c.ph))
        elif isinstance(c, ObjC):
            r = I.new(st, ObjC(c.cls, {}))
            memo[v.id] = r
            st.heap[r.id] = ObjC(c.cls, {k: deep(I, x, st, memo) for k, x in c.attrs.items()})
        else:
            r = I.new(st, c)
        memo[v.id] = r
        return r
    if isinstance(v, (View, Cell)):
        return I.new(st, I.arr(v, st).fresh())
    if isinstance(v, Tup):
        return Tup([deep(I, x, st, memo) for x in v.items])
    return v


HANDLERS["ndarray.copy"] = _copy
HANDLERS["ndarray.__copy__"] = _copy


@handler("ndarray.astype")
def _astype(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    k = dtype_of(I, arg(args, kw, 1, "dtype"))
    r = ArrC(c.dims, I_cast(c.body, c.k, k), k)
    if isinstance(kw.get("copy"), S) and kw["copy"].t is FALSE and k == c.k:
        return args[0]
    return I.back(r, st) if isinstance(args[0], S) else I.new(st, r)


@handler("ndarray.item", "ndarray.tolist")
def _item(I, args, kw, st):
    if len(args) > 1:
        r = getitem_any(I, args[0], Tup(args[1:]), st)
        return S(r.t, r.k)
    c = I.arr(args[0], st)
    if not c.dims:
        return S(c.body, c.k)
    if all(one(d) for d in c.dims):
        t = c.at([(ZERO,)] * len(c.dims))
        return S(t, c.k)
    if len(c.dims) == 1:
        d = c.fresh()
        return I.new(st, ListC([("d", d.dims[0], S(d.body, d.k))]))
    raise Unsupported("tolist")


def _setitem_fill(I, args, kw, st):
    c = I.content(args[0], st)
    v = I.arr(args[1], st)
    I.write_content(args[0], ArrC(c.dims, I_cast(broadcast_to(I, v, c.dims, st).body, v.k, c.k), c.k), st)
    return NONE


HANDLERS["ndarray.fill"] = _setitem_fill


@handler("numpy.copyto")
def _copyto(I, args, kw, st):
    c = I.content(args[0], st)
    if "where" in kw:
        setitem(I, args[0], c, kw["where"], args[1], st) if False else I._raise(Unsupported("copyto where"))
    return _setitem_fill(I, args, kw, st)


# ---- shape functions
@handler("numpy.reshape")
def _reshape(I, args, kw, st):
    sh = args[1:] if len(args) > 2 else [arg(args, kw, 1, "newshape", kw.get("shape"))]
    v = Tup(sh) if len(sh) > 1 else sh[0]
    c = I.arr(args[0], st)
    if any(d.kind != "r" for d in c.dims):
        raise Unsupported("reshape of keyed axis")
    if kw.get("order") is not None and const_of(kw["order"]) != "C":
        raise Unsupported("reshape order")
    return I.new(st, reshape(I, c, shape_arg(I, v, st), st))


@handler("numpy.ravel", "ndarray.flatten", "numpy.ravel")
def _ravel(I, args, kw, st):
    return I.new(st, flatten(I.arr(args[0], st)))


@handler("numpy.squeeze")
def _squeeze(I, args, kw, st):
    v = args[0]
    if isinstance(v, S):
        return I.new(st, ArrC((), v.t, v.k))
    c = I.arr(v, st)
    axis = arg(args, kw, 1, "axis")
    drop = [i for i, d in enumerate(c.dims) if one(d)] if axis is NONE else axes_of(I, c, axis, st)
    for i in drop:
        I.abort(st, not_(eq(dim_n(c.dims[i]), ONE)), "ValueError")
    if not isinstance(v, (Ref, View, Cell)) or not isinstance(I.content(v, st), ArrC):
        z = {c.dims[i].vars[0]: ZERO for i in drop}
        return I.new(st, ArrC([d for i, d in enumerate(c.dims) if i not in drop], subst(c.body, z), c.k))
    if not drop:
        return v
    sel, doms = [], []
    for i, d in enumerate(c.dims):
        if i in drop:
            sel.append(("x", (ZERO,)))
        else:
            nd = d.inst()
            sel.append(("w", len(doms)))
            doms.append(nd)
    return View(v, tuple(sel), None, tuple(doms))


@handler("numpy.transpose")
def _transpose(I, args, kw, st):
    ax = args[1:] if len(args) > 2 else ([args[1]] if len(args) > 1 else [])
    if len(ax) == 1 and not isinstance(ax[0], S):
        ax = I.concrete_items(ax[0], st)
    if "axes" in kw:
        ax = I.concrete_items(kw["axes"], st)
    return I.new(st, transpose(I.arr(args[0], st), [const_of(a) for a in ax] if ax else None))


@handler("numpy.swapaxes")
def _swapaxes(I, args, kw, st):
    c = I.arr(args[0], st)
    ax = list(range(len(c.dims)))
    a, b = const_of(args[1]) % len(ax), const_of(args[2]) % len(ax)
    ax[a], ax[b] = ax[b], ax[a]
    return I.new(st, transpose(c, ax))


@handler("numpy.moveaxis")
def _moveaxis(I, args, kw, st):
    c = I.arr(args[0], st)
    n = len(c.dims)
    s, d = const_of(args[1]) % n, const_of(args[2]) % n
    ax = [i for i in range(n) if i != s]
    ax.insert(d, s)
    return I.new(st, transpose(c, ax))


@handler("numpy.expand_dims")
def _expand(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    a = const_of(arg(args, kw, 1, "axis")) % (len(c.dims) + 1)
    dims = list(c.dims)
    dims.insert(a, rng(ONE))
    return I.new(st, ArrC(dims, c.body, c.k))


@handler("numpy.broadcast_to")
def _bto(I, args, kw, st):
    c = I.arr(args[0], st)
    return I.new(st, broadcast_to(I, c, tuple(shape_dims(I, args[1], st)), st))


@handler("numpy.broadcast_arrays")
def _barrs(I, args, kw, st):
    conts = [I.arr(a, st) for a in args]
    dims, maps = broadcast_dims(I, conts, st)
    return Tup([I.new(st, ArrC(dims, subst(c.body, m), c.k).fresh()) for c, m in zip(conts, maps)])


def _seqparts(I, v, st):
    p = part_list(I, v, st)
    if p is not None:
        if not p:
            I.abort(st, TRUE, "ValueError")
        return p, None
    segs = I.segments(v, st)
    if len(segs) == 1 and segs[0][0] == "d":
        c = I.arr(segs[0][2], st).fresh()
        d = segs[0][1]
        return None, (d, c)
    raise Unsupported("mixed sequence of arrays")


@handler("numpy.concatenate", "numpy.concat")
def _concat(I, args, kw, st):
    ax = arg(args, kw, 1, "axis", I_(0))
    p, sym = _seqparts(I, args[0], st)
    if p is not None:
        if ax is NONE:
            p = [flatten(c) for c in p]
            ax = I_(0)
        return I.new(st, concatenate(I, p, const_of(ax), st))
    d, c = sym
    if const_of(ax) != 0 or not c.dims:
        raise Unsupported("symbolic concatenate")
    n = d.product(c.dims[0])
    return I.new(st, ArrC((n,) + c.dims[1:], c.body, c.k))


@handler("numpy.hstack")
def _hstack(I, args, kw, st):
    p, sym = _seqparts(I, args[0], st)
    if p is None:
        d, c = sym
        if not c.dims:
            return I.new(st, ArrC((d,), c.body, c.k))
        if len(c.dims) == 1:
            return I.new(st, ArrC((d.product(c.dims[0]),), c.body, c.k))
        raise Unsupported("symbolic hstack")
    p = [promote(c, 1) for c in p]
    return I.new(st, concatenate(I, p, 0 if len(p[0].dims) == 1 else 1, st))


@handler("numpy.vstack", "numpy.row_stack")
def _vstack(I, args, kw, st):
    p, sym = _seqparts(I, args[0], st)
    if p is None:
        d, c = sym
        if len(c.dims) <= 1:
            return I.new(st, ArrC((d,) + promote(c, 1).dims, c.body, c.k))
        return I.new(st, ArrC((d.product(c.dims[0]),) + c.dims[1:], c.body, c.k))
    p = [promote(c, 2) for c in p]
    return I.new(st, concatenate(I, p, 0, st))


@handler("numpy.column_stack")
def _colstack(I, args, kw, st):
    p, sym = _seqparts(I, args[0], st)
    if p is None:
        raise Unsupported("symbolic column_stack")
    out = []
    for c in p:
        c = promote(c, 1)
        if len(c.dims) == 1:
            c = ArrC((c.dims[0], rng(ONE)), c.body, c.k)
        out.append(c)
    return I.new(st, concatenate(I, out, 1, st))


@handler("numpy.dstack")
def _dstack(I, args, kw, st):
    p, sym = _seqparts(I, args[0], st)
    if p is None or any(len(c.dims) != 2 for c in p):
        raise Unsupported("dstack")
    return I.new(st, stack(I, p, 2, st))


@handler("numpy.stack")
def _stack(I, args, kw, st):
    ax = const_of(arg(args, kw, 1, "axis", I_(0)))
    p, sym = _seqparts(I, args[0], st)
    if p is None:
        d, c = sym
        I.abort(st, le(d.size(), ZERO), "ValueError")
        dims = list(c.dims)
        dims.insert(ax % (len(dims) + 1), d)
        return I.new(st, ArrC(dims, c.body, c.k))
    if not p:
        I.abort(st, TRUE, "ValueError")
    return I.new(st, stack(I, p, ax, st))


def _split_axis(I, args, ax, st):
    a = args[0]
    if isinstance(a, (Tup, It)) or (isinstance(a, Ref) and isinstance(I.content(a, st), ListC)):
        a = I.new(st, I.arr(a, st))
    c = I.content(a, st)
    if not isinstance(c, ArrC) or not c.dims:
        I.abort(st, TRUE, "ValueError")
    if ax is None:
        ax = 0 if len(c.dims) == 1 else 1
    ax %= len(c.dims)
    n = c.dims[ax].size()
    k = args[1]

    def part(lo, hi):
        key = Tup([Sl(NONE, NONE, NONE)] * ax + [Sl(lo, hi, NONE)])
        return getitem_any(I, a, key, st)
    if isinstance(k, S):
        if isc(k.t):
            m = int(cval(k.t))
            I.abort(st, not_(eq(fn("mod", n, const(m)), ZERO)), "ValueError")
            w = fn("floordiv", n, const(m))
            return I.lst(st, [part(S(mul(const(i), w), "i"), S(mul(const(i + 1), w), "i")) for i in range(m)])
        if k.t is n:
            d = Dom.range(ZERO, n)
            dims = list(c.dims)
            dims[ax] = rng(ONE)
            idx = [x.vars for x in dims]
            idx[ax] = d.vars
            fr = ArrC(dims, c.at(idx), c.k)
            return I.new(st, ListC([("d", d, AV(fr))]))
        raise Unsupported("split into a symbolic number of parts")
    pts = [x for x in I.concrete_items(k, st)]
    out, prev = [], I_(0)
    for x in pts + [NONE]:
        out.append(part(prev, x))
        prev = x
    return I.lst(st, out)


@handler("numpy.hsplit")
def _hsplit(I, args, kw, st):
    return _split_axis(I, [args[0], arg(args, kw, 1, "indices_or_sections")], None, st)


@handler("numpy.split")
def _split(I, args, kw, st):
    return _split_axis(I, [args[0], arg(args, kw, 1, "indices_or_sections")], const_of(arg(args, kw, 2, "axis", I_(0))), st)


@handler("numpy.vsplit")
def _vsplit(I, args, kw, st):
    return _split_axis(I, [args[0], arg(args, kw, 1, "indices_or_sections")], 0, st)


@handler("numpy.array_split")
def _asplit(I, args, kw, st):
    raise Unsupported("array split")


@handler("numpy.tile")
def _tile(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    r = shape_arg(I, args[1], st)
    c = promote(c, len(r))
    while len(r) < len(c.dims):
        r = [ONE] + list(r)
    dims, m = [], {}
    for d, k in zip(c.dims, r):
        if k is ONE:
            dims.append(d)
        elif one(d):
            nd = rng(k)
            m[d.vars[0]] = ZERO
            dims.append(nd)
        elif d.simple():
            nd = rng(mul(k, d.his[0]))
            m[d.vars[0]] = fn("mod", nd.vars[0], d.his[0])
            dims.append(nd)
        else:
            raise Unsupported("tile of composite axis")
    return I.new(st, ArrC(dims, subst(c.body, m), c.k))


@handler("numpy.repeat")
def _repeat(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    ax = arg(args, kw, 2, "axis")
    n = arg(args, kw, 1, "repeats")
    if not isinstance(n, S) or (ax is NONE and len(c.dims) > 1):
        raise Unsupported("repeat")
    a = 0 if ax is NONE else const_of(ax) % len(c.dims)
    if c.dims:
        c = plain(c, a)
    d = c.dims[a] if c.dims else rng(ONE)
    nd = rng(mul(d.his[0], n.t))
    dims = list(c.dims) or [d]
    dims[a] = nd
    return I.new(st, ArrC(dims, subst(c.body, {d.vars[0]: fn("floordiv", nd.vars[0], n.t)}), c.k))


@handler("numpy.meshgrid")
def _meshgrid(I, args, kw, st):
    idx = const_of(kw["indexing"]) if "indexing" in kw else "xy"
    cs = [flatten(I.arr(a, st)) for a in args]
    dims = [c.dims[0] for c in cs]
    order = list(range(len(cs)))
    if idx == "xy" and len(cs) > 1:
        order[0], order[1] = 1, 0
    out = []
    for c in cs:
        od = [dims[i] for i in order]
        out.append(I.new(st, ArrC(od, c.body, c.k).fresh()))
    return I.lst(st, out)


@handler("numpy.diff")
def _diff(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    n = const_of(arg(args, kw, 1, "n", I_(1)))
    ax = const_of(arg(args, kw, 2, "axis", I_(-1))) % len(c.dims)
    for _ in range(n):
        d = c.dims[ax]
        if not d.simple():
            c = compact(c, ax)
            d = c.dims[ax]
        m = sub(d.his[0], ONE)
        nd = rng(m if nonneg(m) else tmax(m, ZERO))
        v = nd.vars[0]
        body = sub(subst(num(c.body), {d.vars[0]: add(v, ONE)}), subst(num(c.body), {d.vars[0]: v}))
        dims = list(c.dims)
        dims[ax] = nd
        c = ArrC(dims, body, ik(c.k))
    return I.new(st, c)


@handler("numpy.roll")
def _roll(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    s = arg(args, kw, 1, "shift").t
    ax = arg(args, kw, 2, "axis")
    if ax is NONE:
        if len(c.dims) != 1:
            raise Unsupported("roll of flattened array")
        ax = I_(0)
    a = const_of(ax) % len(c.dims)
    c = plain(c, a)
    d = c.dims[a]
    n = d.his[0]
    nd = rng(n)
    v = nd.vars[0]
    if s is ONE:
        i = ite(eq(v, ZERO), sub(n, ONE), sub(v, ONE))
    elif s is NEG1:
        i = ite(eq(v, sub(n, ONE)), ZERO, add(v, ONE))
    else:
        i = fn("mod", sub(v, s), n)
    dims = list(c.dims)
    dims[a] = nd
    return I.new(st, ArrC(dims, subst(c.body, {d.vars[0]: i}), c.k))


def _flip_axis(I, v, ax, st):
    c = I.arr(v, st)
    items = [Sl(NONE, NONE, NONE)] * len(c.dims)
    for a in ax:
        items[a] = Sl(NONE, NONE, I_(-1))
    w = v if isinstance(v, (Ref, View, Cell)) else I.new(st, c)
    return getitem(I, w, c, Tup(items), st)


@handler("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _flip(I, args, kw, st):
    c = I.arr(args[0], st)
    return _flip_axis(I, args[0], axes_of(I, c, arg(args, kw, 1, "axis"), st), st)


HANDLERS["numpy.flipud"] = lambda I, args, kw, st: _flip_axis(I, args[0], [0], st)
HANDLERS["numpy.fliplr"] = lambda I, args, kw, st: _flip_axis(I, args[0], [1], st)


@handler("numpy.matmul", "numpy.dot")
def _matmul(I, args, kw, st):
    a, b = I.arr(args[0], st), I.arr(args[1], st)
    if not a.dims or not b.dims:
        return binop(I, "Mult", args[0], args[1], st)
    return I.back(matmul(I, a, b, st), st)


@handler("numpy.vdot")
def _vdot(I, args, kw, st):
    a, b = flatten(I.arr(args[0], st)), flatten(I.arr(args[1], st))
    if a.k == "c":
        a = elem(I, lambda x: fn("conj", x), [a], st, "c")
    return I.back(matmul(I, a, b, st), st)


@handler("numpy.inner")
def _inner(I, args, kw, st):
    a, b = I.arr(args[0], st), I.arr(args[1], st)
    if not a.dims or not b.dims:
        return binop(I, "Mult", args[0], args[1], st)
    if len(b.dims) > 1:
        n = len(b.dims)
        b = transpose(b, list(range(n - 2)) + [n - 1, n - 2])
        if n > 2:
            raise Unsupported("inner of many axes")
    return I.back(matmul(I, a, b, st), st)


@handler("numpy.outer")
def _outer(I, args, kw, st):
    a, b = flatten(I.arr(args[0], st)), flatten(I.arr(args[1], st))
    return I.new(st, ArrC((a.dims[0], b.dims[0]), mul(a.body, b.body), kjoin(a.k, b.k)).fresh())


@handler("numpy.cross")
def _cross(I, args, kw, st):
    a, b = I.arr(args[0], st).fresh(), I.arr(args[1], st).fresh()
    if any(not (isc(dim_n(x.dims[-1])) and cval(dim_n(x.dims[-1])) == 3) for x in (a, b)):
        raise Unsupported("cross product")
    g = lambda x, i: ArrC(x.dims[:-1], subst(x.body, {x.dims[-1].vars[0]: const(i)}), x.k)
    comps = []
    for i, j in ((1, 2), (2, 0), (0, 1)):
        comps.append(elem(I, lambda p, q, r, s: sub(mul(p, q), mul(r, s)), [g(a, i), g(b, j), g(a, j), g(b, i)], st, kjoin(a.k, b.k)))
    return I.new(st, stack(I, comps, -1, st))


@handler("numpy.einsum")
def _einsum(I, args, kw, st):
    spec = const_of(args[0]).replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    conts = [I.arr(a, st).fresh() for a in args[1:]]
    if "." in spec:   # the dimensions behind the dots get labels of their own, aligned at the right
        if not _ or len(ins) != len(conts):
            raise Unsupported("einsum ellipsis")
        more = [len(c.dims) - len(x.replace("...", "")) if "..." in x else 0 for x, c in zip(ins, conts)]
        if any(x < 0 for x in more):
            I.abort(st, TRUE, "ValueError")
        top = "ABCDEFGHIJ"[:max(more)]
        ins = [x.replace("...", top[len(top) - q:]) for x, q in zip(ins, more)]
        out = out.replace("...", top)
    dom = {}
    body = ONE
    k = "i"
    for labels, c in zip(ins, conts):
        m = {}
        if len(labels) != len(c.dims):
            I.abort(st, TRUE, "ValueError")
        for ch, d in zip(labels, c.dims):
            if ch not in dom:
                dom[ch] = d
            elif dom[ch] == d:
                m.update(zip(d.vars, dom[ch].vars))
            else:
                I.abort(st, not_(eq(dim_n(d), dim_n(dom[ch]))), "ValueError")
                m.update(align(d, dom[ch]))
        body = mul(body, subst(c.body, m))
        k = kjoin(k, c.k)
    if not _:
        allc = "".join(ins)
        out = "".join(sorted(ch for ch in set(allc) if allc.count(ch) == 1))
    for ch in dom:
        if ch not in out:
            body = bind("sum", dom[ch], body)
    return I.back(ArrC([dom[ch] for ch in out], body, k), st)


@handler("numpy.where")
def _where(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    if len(args) == 1:
        comp = None
        for d in c.dims:
            comp = d if comp is None else comp.product(d)
        comp = comp.with_cond(tm._bool(c.body))
        out = []
        for d in c.dims:
            if len(d.vars) != 1:
                raise Unsupported("where on a composite axis")
            x = comp.inst()
            out.append(I.arr_new(st, (x,), x.vars[comp.vars.index(d.vars[0])], "i"))
        return Tup(out)
    a, b = I.arr(args[1], st), I.arr(args[2], st)
    return I.back(elem(I, lambda x, y, z: ite(tm._bool(x), num(y), num(z)) if not (y.sort == "b" and z.sort == "b") else ite(tm._bool(x), y, z),
                       [c, a, b], st, kjoin(a.k, b.k)), st) if True else None


HANDLERS["numpy.nonzero"] = _where
HANDLERS["numpy.argwhere"] = lambda I, args, kw, st: I._raise(Unsupported("argwhere"))


@handler("numpy.flatnonzero")
def _fnz(I, args, kw, st):
    c = flatten(I.arr(args[0], st))
    d = c.dims[0]
    comp = d.with_cond(tm._bool(c.body))
    return I.arr_new(st, (comp,), flat_pos(d) if not d.simple() else d.vars[0], "i")


@handler("numpy.select")
def _select(I, args, kw, st):
    conds = I.concrete_items(args[0], st)
    ch = I.concrete_items(args[1], st)
    dflt = arg(args, kw, 2, "default", I_(0))
    r = dflt
    for c, x in list(zip(conds, ch))[::-1]:
        r = _where(I, [c, x, r], {}, st)
    return r


@handler("numpy.clip")
def _clip(I, args, kw, st):
    c = I.arr(args[0], st)
    lo, hi = arg(args, kw, 1, "a_min", kw.get("min", NONE)), arg(args, kw, 2, "a_max", kw.get("max", NONE))
    r = c
    if lo is not NONE:
        x = I.arr(lo, st)
        r = elem(I, lambda p, q: tmax(num(p), num(q)), [r, x], st, kjoin(r.k, x.k))
    if hi is not NONE:
        x = I.arr(hi, st)
        r = elem(I, lambda p, q: tmin(num(p), num(q)), [r, x], st, kjoin(r.k, x.k))
    return I.back(r, st)


@handler("numpy.round", "numpy.around")
def _npround(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    d = arg(args, kw, 1, "decimals", I_(0))
    return I.back(ArrC(c.dims, fn("round", num(c.body), d.t) if d.t is not ZERO else fn("round", num(c.body)), c.k), st)


@handler("numpy.real_if_close")
def _ric(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    if c.k != "c":
        return args[0] if isinstance(args[0], (Ref, View, Cell)) else I.back(c, st)
    if c.body.sort != "c":
        return I.new(st, ArrC(c.dims, c.body, "f"))
    if fn("conj", c.body) is c.body:
        return I.new(st, ArrC(c.dims, fn("re", c.body), "f"))
    # complex unless every imaginary part is negligible: the value is the same up to rounding
    return I.new(st, ArrC(c.dims, c.body, "c"))


@handler("numpy.nan_to_num")
def _ntn(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    return I.back(ArrC(c.dims, ite(fn("isnan", num(c.body)), ZERO, c.body), c.k), st)


@handler("numpy.isclose")
def _isclose(I, args, kw, st):
    rt, at, en = close_args(I, args, kw, st)
    return I.back(elem(I, lambda x, y: isclose_term(I, x, y, rt, at, en), [I.arr(args[0], st), I.arr(args[1], st)], st, "b"), st)


@handler("numpy.allclose")
def _allclose(I, args, kw, st):
    rt, at, en = close_args(I, args, kw, st)
    c = elem(I, lambda x, y: isclose_term(I, x, y, rt, at, en), [I.arr(args[0], st), I.arr(args[1], st)], st, "b")
    r = reduce_(I, "all", c, NONE, False, st)
    return S(r.body, "b")


@handler("numpy.array_equal")
def _aeq(I, args, kw, st):
    a, b = I.arr(args[0], st), I.arr(args[1], st)
    if len(a.dims) != len(b.dims):
        return S(FALSE, "b")
    same = TRUE
    for p, q in zip(a.dims, b.dims):
        same = and_(same, eq(dim_n(p), dim_n(q)))
    if same is FALSE:
        return S(FALSE, "b")
    s2 = st.fork()
    s2.pc = and_(s2.pc, same)
    n0 = len(I.aborts)
    c = elem(I, lambda x, y: eq(num(x), num(y)), [a, b], s2, "b")
    del I.aborts[n0:]
    r = reduce_(I, "all", c, NONE, False, s2)
    return S(and_(same, r.body), "b")


@handler("numpy.unravel_index")
def _unravel(I, args, kw, st):
    sh = shape_arg(I, args[1], st)
    c = I.arr(args[0], st).fresh()
    rem = num(c.body)
    out = []
    for h in sh[::-1]:
        out.append(fn("mod", rem, h))
        rem = fn("floordiv", rem, h)
    return Tup([I.back(ArrC(c.dims, t, "i"), st) for t in out[::-1]])


@handler("numpy.ndindex")
def _ndindex(I, args, kw, st):
    sh = shape_arg(I, args[0] if len(args) == 1 else Tup(args), st)
    if all(isc(h) for h in sh) and all(cval(h) <= 8 for h in sh):
        import itertools as it
        return It([("i", Tup([I_(i) for i in p])) for p in it.product(*[range(int(cval(h))) for h in sh])])
    d = None
    for h in sh:
        x = rng(h)
        d = x if d is None else d.product(x)
    if d is None:
        return It([("i", Tup([]))])
    return It([("d", d, Tup([S(v, "i") for v in d.vars]))])


@handler("numpy.ndenumerate")
def _nden(I, args, kw, st):
    c = I.arr(args[0], st).fresh()
    d = None
    for x in c.dims:
        if not x.simple():
            raise Unsupported("ndenumerate of composite axes")
        d = x if d is None else d.product(x)
    return It([("d", d, Tup([Tup([S(v, "i") for v in d.vars]), S(c.body, c.k, True)]))])


@handler("numpy.vectorize")
def _vectorize(I, args, kw, st):
    return Partial("vectorize", (args[0],), {})


@handler("numpy.gradient")
def _gradient(I, args, kw, st):
    raise Unsupported("gradient")


@handler("numpy.sort")
def _sort(I, args, kw, st):
    raise Unsupported("sort of numeric array")


@handler("numpy.errstate")
def _errstate(I, args, kw, st):
    return NONE


for _n in ("numpy.seterr", "numpy.set_printoptions", "numpy.printoptions", "numpy.random.seed", "random.seed"):
    pass


@handler("numpy.ix_")
def _ix(I, args, kw, st):
    n = len(args)
    out = []
    for i, a in enumerate(args):
        c = flatten(I.arr(a, st))
        dims = [rng(ONE) for _ in range(n)]
        dims[i] = c.dims[0]
        out.append(I.new(st, ArrC(dims, c.body, c.k)))
    return Tup(out)


@handler("numpy.iscomplexobj", "numpy.iscomplex")
def _iscomplexobj(I, args, kw, st):
    return S(const(I.arr(args[0], st).k == "c"), "b")


@handler("numpy.isrealobj")
def _isrealobj(I, args, kw, st):
    return S(const(I.arr(args[0], st).k != "c"), "b")


@handler("numpy.isscalar")
def _isscalar(I, args, kw, st):
    return S(const(isinstance(args[0], (S, St))), "b")


@handler("numpy.shape")
def _npshape(I, args, kw, st):
    return shape_of(I.arr(args[0], st))


@handler("numpy.size")
def _npsize(I, args, kw, st):
    n = ONE
    for d in I.arr(args[0], st).dims:
        n = mul(n, dim_n(d))
    return S(n, "i")


@handler("numpy.ndim")
def _npndim(I, args, kw, st):
    return I_(len(I.arr(args[0], st).dims))


@handler("numpy.result_type", "numpy.promote_types")
def _rtype(I, args, kw, st):
    k = "b"
    for a in args:
        try:
            k = kjoin(k, dtype_of(I, a))
        except Unsupported:
            k = kjoin(k, I.arr(a, st).k)
    return Dt(k)


@handler("numpy.issubdtype")
def _issub(I, args, kw, st):
    k = dtype_of(I, args[0])
    n = args[1].name.split(".")[-1] if isinstance(args[1], B) else {"f": "floating", "i": "integer", "c": "complexfloating", "b": "bool"}[dtype_of(I, args[1])]
    r = {"floating": k == "f", "integer": k == "i", "complexfloating": k == "c", "number": k in "ifc", "inexact": k in "fc", "signedinteger": k == "i",
         "float": k == "f", "int": k == "i", "complex": k == "c", "bool": k == "b", "generic": True}.get(n)
    if r is None:
        raise Unsupported("issubdtype " + n)
    return S(const(r), "b")


@handler("scipy.special.lpmn", "scipy.special.clpmn")
def _lpmn(I, args, kw, st):
    a = list(args) + [None] * 3
    M, N, z = [kw.get(k, a[i]) for i, k in enumerate("mnz")]
    zc = I.arr(z, st)
    if zc.dims:
        I.abort(st, TRUE, "ValueError")
    mabs = fn("abs", num(M.t))
    I.abort(st, lt(num(N.t), ZERO), "ValueError")
    d0, d1 = rng(add(mabs, ONE)), rng(add(num(N.t), ONE))
    m, l = d0.vars[0], d1.vars[0]
    def ph(f):
        b = fn(f, m, l, num(zc.body))
        if nonneg(num(M.t)):
            return ite(lt(l, m), ZERO, b)
        g = ite(lt(l, m), ZERO, mul(power(NEG1, m), fn("factorial", sub(l, m)), power(fn("factorial", add(l, m)), NEG1), b))
        return ite(lt(num(M.t), ZERO), g, ite(lt(l, m), ZERO, b))
    e0, e1 = d0.inst(), d1.inst()
    p = I.arr_new(st, (d0, d1), ph("lpmv"), "f")
    q = ArrC((d0, d1), ph("dlpmv"), "f").fresh()
    return Tup([p, I.new(st, q)])


# ------------------------------------------------------------------ builtins
@handler("builtins.len")
def _len(I, args, kw, st):
    v = args[0]
    if isinstance(v, Gt):
        return gate_apply(I, v.c, lambda s: _len(I, [v.a], {}, s), lambda s: _len(I, [v.b], {}, s), st)
    if isinstance(v, Tup):
        return I_(len(v.items))
    if isinstance(v, St):
        return I_(len(v.const())) if v.const() is not None else S(mk("len_s", (v.t,), "i"), "i")
    if isinstance(v, Partial) and v.fn == "strtokens":
        return S(mk("ntok", (v.args[0],), "i"), "i")
    if isinstance(v, Partial) and v.fn == "mapkeys" and isinstance(st.heap[v.args[0].id], DictC):
        v = v.args[0]
    s = setlike(I, v, st)
    if s is not None:
        return S(Dom("k", (s.l, s.m), (), (), s.has).size(), "i")
    if isinstance(v, (Ref, View, Cell, AV)):
        c = I.content(v, st)
        if isinstance(c, ListC):
            return S(I.seglen(c.segs), "i")
        if isinstance(c, ArrC):
            if not c.dims:
                I.abort(st, TRUE, "TypeError")
            return S(dim_n(c.dims[0]), "i")
        if isinstance(c, DictC):
            return I_(len(c.items))
        if isinstance(c, ObjC) and isinstance(c.cls, ClsV):
            f = c.cls.lookup("__len__")
            if f is not None:
                return I.call(f, [v], {}, st)
    if isinstance(v, ExtO):
        return S(opaque("length of external object", "i"), "i")
    if isinstance(v, It) and v.src == "range":
        return S(I.seglen(v.segs), "i")
    I.abort(st, TRUE, "TypeError")


@handler("builtins.range")
def _range(I, args, kw, st):
    for a in args:
        if isinstance(a, S) and a.k in "fc":
            I.abort(st, TRUE, "TypeError")
        if not isinstance(a, S):
            if isinstance(a, Gt):
                raise Unsupported("range of gated value")
            I.abort(st, TRUE, "TypeError")
    v = [num(a.t) for a in args]
    a, b, s = (ZERO, v[0], ONE) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else ONE)
    if not isc(s):
        # step of unknown sign: length ceil((b - a) / s) when positive, none otherwise
        I.abort(st, eq(s, ZERO), "ValueError")
        d = rng(tmax(fn("ceil", div(sub(b, a), s)), ZERO))
        return It([("d", d, S(add(a, mul(s, d.vars[0])), "i"))], "range")
    sv = int(cval(s))
    if sv == 0:
        I.abort(st, TRUE, "ValueError")
    ln = sub(b, a)
    if isc(ln):
        lo = cval(a) if isc(a) else None
        n = len(range(0, int(cval(ln)), sv))
        if n <= 64 and (n <= 8 or True) and n <= 12:
            return It([("i", S(add(a, const(i * sv)), "i")) for i in range(n)], "range")
    if sv == 1:
        d = Dom.range(a, b)
        return It([("d", d, S(d.vars[0], "i"))], "range")
    if sv == -1:
        d = rng(sub(a, b))
        return It([("d", d, S(sub(a, d.vars[0]), "i"))], "range")
    n = fn("ceil", div(ln, s))
    d = rng(n)
    return It([("d", d, S(add(a, mul(s, d.vars[0])), "i"))], "range")


@handler("builtins.enumerate")
def _enumerate(I, args, kw, st):
    start = arg(args, kw, 1, "start", I_(0)).t
    segs = I.segments(args[0], st)
    out = []
    pos = start
    for s in segs:
        if s[0] == "i":
            out.append(("i", Tup([S(pos, "i"), s[1]])))
            pos = add(pos, ONE)
        elif s[0] == "d":
            p = flat_pos_any(s[1])
            out.append(("d", s[1], Tup([S(add(pos, p), "i"), s[2]])))
            pos = add(pos, s[1].size())
        else:
            raise Unsupported("enumerate of a nested sequence")
    return It(out)


_enumerate.rawun = True


def flat_pos_any(d):
    if d.simple():
        return d.vars[0]
    if d.kind == "r" and len(d.vars) == 1 and d.cond is TRUE:
        return sub(d.vars[0], d.los[0])
    if d.kind == "r" and not d.vars:
        return ZERO
    return flat_pos(d)


@handler("builtins.zip")
def _zip(I, args, kw, st):
    if len(args) == 1 and isinstance(args[0], Partial) and args[0].fn == "star":
        return zip_star(I, args[0].args[0], st)
    seqs = [I.segments(a, st) for a in args]
    if not seqs:
        return It([])
    if all(all(s[0] == "i" for s in q) for q in seqs):
        n = min(len(q) for q in seqs)
        return It([("i", Tup([q[i][1] for q in seqs])) for i in range(n)])
    if all(len(q) == 1 and q[0][0] == "d" for q in seqs):
        d0 = seqs[0][0][1]
        new = None
        for q in seqs:
            if not q[0][1].simple():
                new = q[0][1]
        doms = [q[0][1] for q in seqs]
        if all(d == doms[0] for d in doms):
            nd = doms[0].inst()
            vals = [I.val_subst(q[0][2], dict(zip(q[0][1].vars, nd.vars))) for q in seqs]
            return It([("d", nd, Tup(vals))])
        if all(d.kind == "r" and len(d.vars) == 1 and d.cond is TRUE for d in doms):
            n = None
            for d in doms:
                ln = sub(d.his[0], d.los[0])
                n = ln if n is None or n is ln else tmin(n, ln)
            nd = rng(n)
            vals = [I.val_subst(q[0][2], {q[0][1].vars[0]: add(q[0][1].los[0], nd.vars[0])}) for q in seqs]
            return It([("d", nd, Tup(vals))])
        # same number of points, one composite: index by position
        base = [d for d in doms if not d.simple()][0]
        nd = base.inst()
        vals = []
        for q, d in zip(seqs, doms):
            if d == base:
                vals.append(I.val_subst(q[0][2], dict(zip(d.vars, nd.vars))))
            elif d.simple() and d.his[0] is base.size():
                vals.append(I.val_subst(q[0][2], {d.vars[0]: flat_pos_any(nd)}))
            else:
                raise Unsupported("zip of differing sequences")
        return It([("d", nd, Tup(vals))])
    # concrete with symbolic: index the symbolic one
    conc = [q for q in seqs if all(s[0] == "i" for s in q)]
    if conc:
        n = min(len(q) for q in conc)
        L = None
        for q in seqs:
            if q not in conc:
                ln = I.seglen(q)
                L = ln if L is None else tmin(L, ln)
        out = []
        for i in range(n):
            vals = [q[i][1] if q in conc else seq_get_soft(I, q, i, st) for q in seqs]
            c = lt(const(i), L)
            if c is TRUE:
                out.append(("i", Tup(vals)))
            elif c is not FALSE:
                out.append(("d", Dom("r", (), (), (), c), Tup(vals)))
        return It(out)
    us = [uniform(I, q) for q in seqs]
    if all(u is not None for u in us):
        n = None
        for u in us:
            n = u[1].his[0] if n is None or n is u[1].his[0] else tmin(n, u[1].his[0])
        nd = rng(n)
        return It([("d", nd, Tup([I.val_subst(u[2], {u[1].vars[0]: nd.vars[0]}) for u in us]))])
    raise Unsupported("zip of mixed sequences")


_zip.rawun = True


def seq_get_soft(I, q, i, st):
    s2 = st.fork()
    n0 = len(I.aborts)
    r = seq_get(I, q, I_(i), s2)
    del I.aborts[n0:]
    return r


def zip_star(I, v, st):
    segs = I.segments(v, st)
    if len(segs) == 1 and segs[0][0] == "d" and isinstance(segs[0][2], Tup):
        d, val = segs[0][1], segs[0][2]
        I.abort_unpack_empty = True
        return Partial("unzip", (d, val), {})
    raise Unsupported("zip of a symbolic star argument")


@handler("builtins.list", "builtins.tuple")
def _list(I, args, kw, st):
    if not args:
        return I.lst(st, [])
    v = args[0]
    if isinstance(v, Partial) and v.fn == "unzip":
        d, val = v.args
        return I.lst(st, [I.new(st, ListC([("d", d, x)])) for x in val.items])
    return I.new(st, ListC(I.segments(v, st)))


_list.rawun = True


def _tuple(I, args, kw, st):
    if not args:
        return Tup([])
    v = args[0]
    items = I.concrete_items(v, st)
    if items is not None:
        return Tup([I.thaw(x, st) for x in items])
    return I.new(st, ListC(I.segments(v, st)))


_tuple.rawun = True
HANDLERS["builtins.tuple"] = _tuple


@handler("builtins.dict")
def _dict(I, args, kw, st):
    r = I.new(st, DictC({}))
    if args:
        v = args[0]
        c = I.content(v, st) if isinstance(v, Ref) else None
        if isinstance(c, (DictC, MapC)):
            st.heap[r.id] = c
        else:
            def step(x, s2):
                k, y = I.unpack(x, [None, None], s2)
                I.setitem(r, k, y, s2)
                return _I().Out(s2)
            o = I.run_loop(I.segments(v, st), step, st)
            st.take(o.st)
    if kw:
        st.heap[r.id] = DictC({**st.heap[r.id].items, **kw})
    return r


_dict.rawun = True


@handler("builtins.set", "builtins.frozenset")
def _set(I, args, kw, st):
    if not args:
        return I.new(st, SetC(fresh("i"), fresh("i"), FALSE))
    return make_set(I, args[0], st)


@handler("collections.OrderedDict")
def _od(I, args, kw, st):
    return _dict(I, args, kw, st)


@handler("builtins.sorted")
def _sorted(I, args, kw, st):
    v = args[0]
    rev = "reverse" in kw and I.truth(kw["reverse"], st) is not FALSE
    key = kw.get("key", NONE)
    s = setlike(I, v, st)
    if s is not None and key is NONE and not rev:
        d = Dom("k", (fresh("i", name="l"), fresh("i", name="m")), (), ())
        d.cond = subst(s.has, {s.l: d.vars[0], s.m: d.vars[1]})
        return I.new(st, ListC([("d", d, Tup([S(d.vars[0], "i"), S(d.vars[1], "i")]))]))
    segs = I.segments(v, st)
    if all(x[0] == "i" and is_const(x[1]) for x in segs) and key is NONE:
        out = sorted(segs, key=lambda x: const_of(x[1]), reverse=rev)
        return I.new(st, ListC(out))
    if len(segs) <= 1 and all(x[0] == "i" for x in segs):
        return I.new(st, ListC(segs))
    if len(segs) == 1 and segs[0][0] == "d" and segs[0][1].kind in "uk" and not rev:
        d, val = segs[0][1], segs[0][2]
        dflt = isinstance(val, Tup) and val.items and isinstance(val.items[0], Tup)
        kv = val if key is NONE else I.call(key, [val], {}, st)
        first = kv
        if isinstance(kv, Tup) and kv.items and isinstance(kv.items[0], Tup):
            first = kv.items[0]
        if isinstance(first, Tup) and len(first.items) >= 2 and first.items[0].t is d.vars[0] and first.items[1].t is d.vars[1]:
            nd = Dom("k", d.vars, (), (), d.cond)
            return I.new(st, ListC([("d", nd, val)]))
    raise Unsupported("sort of a symbolic sequence")


@handler("builtins.reversed")
def _reversed(I, args, kw, st):
    segs = I.segments(args[0], st)
    if all(s[0] == "i" for s in segs):
        return It(segs[::-1])
    if len(segs) == 1 and segs[0][0] == "d" and segs[0][1].kind == "r" and len(segs[0][1].vars) == 1 and segs[0][1].cond is TRUE:
        d = segs[0][1]
        nd = d.inst()
        return It([("d", nd, I.val_subst(segs[0][2], {d.vars[0]: sub(add(d.los[0], sub(d.his[0], ONE)), nd.vars[0])}))])
    raise Unsupported("reversed symbolic sequence")


def _minmax(op):
    def h(I, args, kw, st):
        if "key" in kw:
            raise Unsupported("%s with key" % op)
        if len(args) > 1:
            r = args[0]
            ts, k, np = [], "b", False
            for a in args:
                if isinstance(a, Gt):
                    a = S(*_gate_num(I, a, st))
                if not isinstance(a, S):
                    if isarr(I, a, st) and not I.arr(a, st).dims:
                        c = I.arr(a, st)
                        a = S(c.body, c.k, True)
                    else:
                        raise Unsupported("%s of %r" % (op, a))
                ts.append(num(a.t))
                k = kjoin(k, a.k)
                np = np or a.np
            return S(maxmin(op, *ts), k, np)
        dflt = kw.get("default")
        segs = I.segments(args[0], st)
        ts = []
        n = ZERO
        k = "b"
        for s in segs:
            v = s[1] if s[0] == "i" else s[2] if s[0] == "d" else I._raise(Unsupported("nested sequence"))
            if isinstance(v, Tup):
                if len(segs) == 1 and s[0] == "d" and len(v.items) == 2:
                    return _lexmax(I, op, s[1], v, st)
                raise Unsupported("%s of tuples" % op)
            if isinstance(v, AV):
                if not v.c.dims:
                    v = S(v.c.body, v.c.k)
                else:
                    raise Unsupported("%s over rows" % op)
            if not isinstance(v, S):
                raise Unsupported("%s of %r" % (op, v))
            k = kjoin(k, v.k)
            if s[0] == "i":
                ts.append(num(v.t))
                n = add(n, ONE)
            else:
                ts.append(bind("b" + op, s[1], num(v.t)))
                n = add(n, s[1].size())
        if dflt is None:
            I.abort(st, eq(n, ZERO), "ValueError")
            if not ts:
                I.abort(st, TRUE, "ValueError")
            return S(maxmin(op, *ts) if len(ts) > 1 else ts[0], k)
        if not ts:
            return dflt
        if not isinstance(dflt, S):
            return I.merge_val(eq(n, ZERO), dflt, S(ts[0] if len(ts) == 1 else maxmin(op, *ts), k))
        return S(ite(eq(n, ZERO), num(dflt.t), ts[0] if len(ts) == 1 else maxmin(op, *ts)), k)
    return h


def _lexmax(I, op, d, v, st):
    I.abort(st, eq(d.size(), ZERO), "ValueError")
    a = bind("b" + op, d, v.items[0].t)
    b = bind("b" + op, d.with_cond(eq(v.items[0].t, a)), v.items[1].t)
    return Tup([S(a, "i"), S(b, "i")])


def _gate_num(I, g, st):
    a = g.a if isinstance(g.a, S) else S(*_gate_num(I, g.a, st)) if isinstance(g.a, Gt) else None
    b = g.b if isinstance(g.b, S) else S(*_gate_num(I, g.b, st)) if isinstance(g.b, Gt) else None
    if a is None and (g.a is NONE or isinstance(g.a, St)):
        I.abort(st, g.c, "TypeError")
        return (b.t, b.k)
    if b is None and (g.b is NONE or isinstance(g.b, St)):
        I.abort(st, not_(g.c), "TypeError")
        return (a.t, a.k)
    if a is None or b is None:
        raise Unsupported("number from gated value")
    return (ite(g.c, num(a.t), num(b.t)), kjoin(a.k, b.k))


HANDLERS["builtins.max"] = _minmax("max")
HANDLERS["builtins.min"] = _minmax("min")


@handler("builtins.sum")
def _sum(I, args, kw, st):
    v = args[0]
    start = arg(args, kw, 1, "start", I_(0))
    if isarr(I, v, st) and isinstance(v, (Ref, View, Cell)):
        c = I.arr(v, st)
        if c.dims:
            r = reduce_(I, "sum", c, I_(0), False, st)
            r = I.back(r, st)
            return r if (isinstance(start, S) and start.t is ZERO) else binop(I, "Add", start, r, st)
    segs = I.segments(v, st)
    acc = start
    for s in segs:
        if s[0] == "i":
            acc = binop(I, "Add", acc, I.thaw(s[1], st), st)
        elif s[0] == "d":
            x = s[2]
            if isinstance(x, S):
                acc = binop(I, "Add", acc, S(bind("sum", s[1], num(x.t)), "i" if x.k == "b" else x.k, x.np), st)
            elif isinstance(x, (AV, Cell)):
                c = I.arr(x, st).fresh()
                r = I.back(ArrC(c.dims, bind("sum", s[1], num(c.body)), c.k), st)
                acc = binop(I, "Add", acc, r, st)
            else:
                raise Unsupported("sum of %r" % (x,))
        else:
            raise Unsupported("sum of nested sequence")
    return acc


def _anyall(op):
    def h(I, args, kw, st):
        segs = I.segments(args[0], st)
        r = FALSE if op == "any" else TRUE
        for s in segs:
            f = lambda y: I.truth(y, st)
            if op == "any":
                r = or_(r, seg_any(I, s, f))
            else:
                r = and_(r, not_(seg_any(I, s, lambda y: not_(f(y)))))
        return S(r, "b")
    return h


HANDLERS["builtins.any"] = _anyall("any")
HANDLERS["builtins.all"] = _anyall("all")


@handler("builtins.abs")
def _abs(I, args, kw, st):
    return ufunc(I, "abs", args, {}, st) if not isinstance(args[0], S) else S(fn("abs", num(args[0].t)), realk(args[0].k), args[0].np)


@handler("builtins.int")
def _int(I, args, kw, st):
    if not args:
        return I_(0)
    v = args[0]
    if isinstance(v, Gt):
        return gate_apply(I, v.c, lambda s: _int(I, [v.a], kw, s), lambda s: _int(I, [v.b], kw, s), st)
    if v is NONE:
        I.abort(st, TRUE, "TypeError")
    if isinstance(v, S):
        if v.k == "c":
            I.abort(st, TRUE, "TypeError")
        return S(fn("trunc", num(v.t)), "i")
    if isinstance(v, St):
        if v.const() is not None:
            try:
                return I_(int(v.const()))
            except ValueError:
                I.abort(st, TRUE, "ValueError")
        t = int_text(I, v.t, st)
        if t is not None:
            return S(t, "i")
        I.abort(st, not_(mk("parses_int", (v.t,), "b")), "ValueError")
        return S(mk("int_of_str", (v.t,), "i"), "i")
    c = I.arr(v, st)
    if c.dims and not all(one(d) for d in c.dims):
        I.abort(st, TRUE, "TypeError")
    return S(fn("trunc", num(c.at([(ZERO,)] * len(c.dims)))), "i")


@handler("builtins.float")
def _float(I, args, kw, st):
    if not args:
        return S(ZERO, "f")
    v = args[0]
    if isinstance(v, Gt):
        return gate_apply(I, v.c, lambda s: _float(I, [v.a], kw, s), lambda s: _float(I, [v.b], kw, s), st)
    if v is NONE:
        I.abort(st, TRUE, "TypeError")
    if isinstance(v, S):
        if v.k == "c":
            I.abort(st, TRUE, "TypeError")
        return S(num(v.t), "f")
    if isinstance(v, St):
        if v.const() is not None:
            try:
                x = float(v.const())
                return S(const(x), "f")
            except ValueError:
                I.abort(st, TRUE, "ValueError")
        t = float_text(I, v.t, st)
        if t is not None:
            return S(t, "f")
        I.abort(st, not_(mk("parses_float", (v.t,), "b")), "ValueError")
        return S(mk("float_of_str", (v.t,), "r"), "f")
    c = I.arr(v, st)
    if c.dims and not all(one(d) for d in c.dims):
        I.abort(st, TRUE, "TypeError")
    return S(num(c.at([(ZERO,)] * len(c.dims))), "f")


@handler("builtins.complex")
def _complex(I, args, kw, st):
    if not args:
        return S(ZERO, "c")
    v = args[0]
    if isinstance(v, St):
        raise Unsupported("complex of text")
    def sc(v):
        if isinstance(v, S):
            return num(v.t)
        c = I.arr(v, st)
        if c.dims and not all(one(d) for d in c.dims):
            I.abort(st, TRUE, "TypeError")
        return num(c.at([(ZERO,)] * len(c.dims)))
    if len(args) == 1 and "imag" not in kw:
        return S(sc(v), "c")
    return S(add(sc(v), mul(IM, sc(arg(args, kw, 1, "imag")))), "c")


@handler("builtins.bool")
def _bool(I, args, kw, st):
    return S(I.truth(args[0], st), "b")


@handler("builtins.str")
def _str(I, args, kw, st):
    if not args:
        return St("")
    return St(format_value(I, args[0], "", st))


@handler("builtins.repr")
def _repr(I, args, kw, st):
    v = args[0]
    if isinstance(v, S):
        return _str(I, args, kw, st)
    return St(opaque("repr", "s"))


@handler("builtins.format")
def _format(I, args, kw, st):
    return St(format_value(I, args[0], args[1].const() if len(args) > 1 else "", st))


@handler("builtins.round")
def _round(I, args, kw, st):
    v = args[0]
    if isinstance(v, S):
        if len(args) > 1 and args[1] is not NONE:
            return S(fn("round", num(v.t), args[1].t), v.k, v.np)
        return S(_toint(fn("round", num(v.t))), "i")
    return HANDLERS["numpy.round"](I, args, kw, st)


def _toint(t):
    if t.sort == "i":
        return t
    return fn("trunc", t)


@handler("builtins.divmod")
def _divmod(I, args, kw, st):
    return Tup([binop(I, "FloorDiv", args[0], args[1], st), binop(I, "Mod", args[0], args[1], st)])


@handler("builtins.pow")
def _pow(I, args, kw, st):
    return binop(I, "Pow", args[0], args[1], st)


@handler("builtins.print")
def _print(I, args, kw, st):
    f = kw.get("file")
    if isinstance(f, Ref) and isinstance(st.heap[f.id], ObjC) and st.heap[f.id].cls == "file":
        sep, end = kw.get("sep", St(" ")), kw.get("end", St("\n"))
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(sep.t)
            parts.append(format_value(I, a, "", st))
        return textio._write(I, [f, St(concat(parts + [end.t]))], {}, st)
    I.effect(st, "print", args, kw)
    if f is None or isinstance(f, NoneV):
        sep, end = kw.get("sep", St(" ")), kw.get("end", St("\n"))
        sep = St(" ") if isinstance(sep, NoneV) else sep
        end = St("\n") if isinstance(end, NoneV) else end
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(sep.t)
            try:
                parts.append(format_value(I, a, "", st))
            except Unsupported as e:
                parts.append(opaque(str(e), "s"))
        st.heap[textio.STDOUT] = ListC(textio.printed(st).segs + (("i", St(concat(parts + [end.t]))),))
    return NONE


_print.rawun = True


@handler("builtins.callable")
def _callable(I, args, kw, st):
    return S(const(isinstance(args[0], (FnV, BM, ClsV, Partial, Ufn, B))), "b")


@handler("builtins.id")
def _id(I, args, kw, st):
    raise Unsupported("id()")


@handler("builtins.hash")
def _hash(I, args, kw, st):
    return S(opaque("hash", "i"), "i")


@handler("builtins.iter")
def _iter(I, args, kw, st):
    return It(I.segments(args[0], st))


@handler("builtins.next")
def _next(I, args, kw, st):
    v = args[0]
    segs = I.segments(v, st) if not isinstance(v, Partial) else None
    if segs is None:
        raise Unsupported("next of external iterator")
    n = I.seglen(segs)
    if len(args) > 1:
        s2 = st.fork()
        n0 = len(I.aborts)
        try:
            x = seq_get(I, segs, I_(0), s2)
        except _I().Dead:
            x = None
        del I.aborts[n0:]
        if x is None:
            return args[1]
        return I.merge_val(lt(ZERO, n), x, args[1])
    I.abort(st, le(n, ZERO), "StopIteration")
    return seq_get(I, segs, I_(0), st)


@handler("builtins.map")
def _map(I, args, kw, st):
    r = I.new(st, ListC(()))
    f = args[0]
    if len(args) > 2:
        it = _zip(I, args[1:], {}, st)
    else:
        it = It([("i", Tup([s[1]])) if s[0] == "i" else ("d", s[1], Tup([s[2]])) for s in I.segments(args[1], st)])

    def step(x, s2):
        v = I.call(f, list(x.items), {}, s2)
        s2.heap[r.id] = ListC(s2.heap[r.id].segs + (("i", v),))
        return _I().Out(s2)
    o = I.run_loop(I.segments(it, st), step, st)
    st.take(o.st)
    return It(st.heap[r.id].segs)


@handler("builtins.filter")
def _filter(I, args, kw, st):
    out = []
    for s in I.segments(args[1], st):
        f = lambda y: I.truth(I.call(args[0], [y], {}, st) if args[0] is not NONE else y, st)
        if s[0] == "i":
            c = f(s[1])
            if c is TRUE:
                out.append(s)
            elif c is not FALSE:
                out.append(("d", Dom("r", (), (), (), c), s[1]))
        else:
            out.append(("d", s[1].with_cond(f(s[2])), s[2]))
    return It(out)


TYPES_OF = {"i": {"int"}, "f": {"float"}, "c": {"complex"}, "b": {"bool", "int"}}
NPTYPES = {"i": {"numpy.integer", "numpy.int64", "numpy.number", "numpy.generic", "numpy.signedinteger", "numpy.int_", "numpy.intp"}, "f": {"float", "numpy.floating", "numpy.float64", "numpy.number", "numpy.generic", "numpy.double"},
           "c": {"complex", "numpy.complexfloating", "numpy.complex128", "numpy.number", "numpy.generic"}, "b": {"numpy.bool_", "numpy.bool", "numpy.generic"}}
NUMBERS = {"i": {"numbers.Number", "numbers.Integral", "numbers.Real", "numbers.Complex", "numbers.Rational"},
           "f": {"numbers.Number", "numbers.Real", "numbers.Complex"}, "c": {"numbers.Number", "numbers.Complex"}, "b": {"numbers.Number", "numbers.Integral", "numbers.Real", "numbers.Complex"}}


def inst(I, v, c, st):
    if isinstance(c, Tup):
        return or_(*[inst(I, v, x, st) for x in c.items]) if c.items else FALSE
    if isinstance(v, Gt):
        return ite(v.c, inst(I, v.a, c, st), inst(I, v.b, c, st))
    if isinstance(v, Un):
        raise _I().UnknownValue(v.why)
    if isinstance(c, ClsV):
        cls = objcls(I, v, st)
        seen = [cls] if cls else []
        while seen:
            x = seen.pop()
            if isinstance(x, ClsV):
                if x.name == c.name and x.mod == c.mod:
                    return TRUE
                seen += list(x.bases)
        return FALSE
    if isinstance(c, Dt):
        names = {"numpy.float64", "float"} if c.k == "f" else {"numpy.int64"} if c.k == "i" else {"numpy.complex128", "complex"} if c.k == "c" else {"numpy.bool_"}
        if isinstance(v, S):
            return const(v.np and v.k == c.k)
        return FALSE
    n = c.name if isinstance(c, B) else None
    if n is None:
        raise Unsupported("isinstance of %r" % (c,))
    short = n[9:] if n.startswith("builtins.") else n
    if short == "object":
        return TRUE
    if isinstance(v, S):
        if v.np:
            return const(short in NPTYPES[v.k] or short in NUMBERS[v.k])
        return const(short in TYPES_OF[v.k] or short in NUMBERS[v.k])
    if isinstance(v, St):
        return const(short in ("str", "collections.abc.Sequence", "collections.abc.Iterable"))
    if isinstance(v, Tup):
        return const(short in ("tuple", "collections.abc.Sequence", "collections.abc.Iterable"))
    if v is NONE:
        return const(short in ("types.NoneType",))
    if isinstance(v, It):
        return const(short in ("collections.abc.Iterable", "collections.abc.Iterator") or (short == "range" and v.src == "range"))
    if isinstance(v, (Ref, View, Cell, AV)):
        x = I.content(v, st)
        if isinstance(x, (ArrC, S)):
            return const(short in ("numpy.ndarray", "collections.abc.Iterable"))
        if isinstance(x, ListC):
            return const(short in ("list", "collections.abc.Sequence", "collections.abc.Iterable"))
        if isinstance(x, (DictC, MapC)):
            return const(short in ("dict", "collections.abc.Mapping", "collections.abc.Iterable"))
        if isinstance(x, SetC):
            return const(short in ("set", "collections.abc.Set", "collections.abc.Iterable"))
        return FALSE
    if isinstance(v, ExtO):
        return opaque("type of external object", "b")
    return FALSE


@handler("builtins.isinstance")
def _isinstance(I, args, kw, st):
    return S(inst(I, args[0], args[1], st), "b")


@handler("builtins.issubclass")
def _issubclass(I, args, kw, st):
    raise Unsupported("issubclass")


@handler("builtins.type")
def _type(I, args, kw, st):
    v = args[0]
    if isinstance(v, Gt):
        return I.merge_val(v.c, _type(I, [v.a], kw, st), _type(I, [v.b], kw, st))
    if isinstance(v, S):
        return B("builtins." + {"i": "int", "f": "float", "c": "complex", "b": "bool"}[v.k]) if not v.np else Dt(v.k)
    if isinstance(v, St):
        return B("builtins.str")
    if isinstance(v, Tup):
        return B("builtins.tuple")
    if v is NONE:
        return B("types.NoneType")
    cls = objcls(I, v, st)
    if cls:
        return cls
    if isinstance(v, (Ref, View, Cell, AV)):
        x = I.content(v, st)
        return B("numpy.ndarray" if isinstance(x, ArrC) else "builtins.list" if isinstance(x, ListC) else "builtins.dict" if isinstance(x, (DictC, MapC)) else "builtins.set")
    return B("types.other")


@handler("builtins.getattr")
def _getattr(I, args, kw, st):
    n = args[1].const()
    if n is None:
        raise Unsupported("computed attribute name")
    if len(args) > 2:
        n0 = len(I.aborts)
        s2 = st.fork()
        try:
            r = I.getattr_(args[0], n, s2)
        except _I().Dead:
            del I.aborts[n0:]
            return args[2]
        if isinstance(r, Un) and ("attribute" in r.why):
            return args[2]
        st.take(s2)
        return r
    return I.getattr_(args[0], n, st)


_getattr.rawun = True


@handler("builtins.hasattr")
def _hasattr(I, args, kw, st):
    n0 = len(I.aborts)
    s2 = st.fork()
    try:
        r = I.getattr_(args[0], args[1].const(), s2)
        v = args[0]
        if isinstance(r, BM) and isinstance(r.fn, B):
            ok = {"ndarray": {"shape", "dtype", "copy", "astype", "sum", "__len__", "__iter__", "ndim", "size"}, "list": {"append", "__len__", "__iter__", "index"}}
            cat, nme = r.fn.name.split(".", 1)
            if isinstance(v, S):
                return S(const(v.np and nme != "__len__" and nme != "__iter__"), "b")
            return S(const(nme in ok.get(cat, {nme})), "b")
        return S(const(not isinstance(r, Un)), "b")
    except _I().Dead:
        del I.aborts[n0:]
        return S(FALSE, "b")


@handler("builtins.setattr")
def _setattr(I, args, kw, st):
    I.setattr_(args[0], args[1].const(), args[2], st)
    return NONE


@handler("builtins.super")
def _super(I, args, kw, st):
    raise Unsupported("super()")


@handler("builtins.slice")
def _slice(I, args, kw, st):
    a = list(args)
    if len(a) == 1:
        return Sl(NONE, a[0], NONE)
    return Sl(a[0], a[1], a[2] if len(a) > 2 else NONE)


@handler("builtins.vars")
def _vars(I, args, kw, st):
    c = st.heap[args[0].id]
    return I.new(st, DictC(c.attrs))


@handler("functools.partial")
def _partial(I, args, kw, st):
    return Partial(args[0], tuple(args[1:]), kw)


_partial.rawun = True


@handler("functools.reduce")
def _reduce(I, args, kw, st):
    items = I.concrete_items(args[1], st)
    if items is None:
        raise Unsupported("reduce")
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = I.call(args[0], [acc, x], {}, st)
    return acc


@handler("itertools.product")
def _iproduct(I, args, kw, st):
    seqs = [I.segments(a, st) for a in args] * (const_of(kw["repeat"]) if "repeat" in kw else 1)
    def rec(i):
        if i == len(seqs):
            return [("i", Tup([]))]
        rest = rec(i + 1)
        out = []
        for s in seqs[i]:
            for r in rest:
                out.append(prod_seg(I, s, r))
        return out
    return It(rec(0))


def prod_seg(I, s, r):
    if s[0] == "i" and r[0] == "i":
        return ("i", Tup((s[1],) + r[1].items))
    if s[0] == "d" and r[0] == "i":
        return ("d", s[1], Tup((s[2],) + r[1].items))
    if s[0] == "i" and r[0] == "d":
        return ("d", r[1], Tup((s[1],) + r[2].items))
    nr = r[1].inst()
    val = I.val_subst(r[2], dict(zip(r[1].vars, nr.vars)))
    d = s[1].product(nr)
    if d is None:
        raise Unsupported("product of keyed sequences")
    return ("d", d, Tup((s[2],) + val.items))


@handler("itertools.chain")
def _chain(I, args, kw, st):
    out = []
    for a in args:
        out += I.segments(a, st)
    return It(out)


@handler("itertools.count")
def _count(I, args, kw, st):
    a = args[0].t if args else ZERO
    d = Dom.range(a, INF)
    return It([("d", d, S(d.vars[0], "i"))])


@handler("operator.itemgetter")
def _itemgetter(I, args, kw, st):
    return Partial(B("sa.itemget"), tuple(args), {})


@handler("sa.itemget")
def _itemget(I, args, kw, st):
    ks, v = args[:-1], args[-1]
    r = [getitem_any(I, v, k, st) for k in ks]
    return r[0] if len(r) == 1 else Tup(r)


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("mod", "Mod"), ("floordiv", "FloorDiv")):
    HANDLERS["operator." + _n] = (lambda o: lambda I, args, kw, st: binop(I, o, args[0], args[1], st))(_o)
HANDLERS["operator.neg"] = lambda I, args, kw, st: unop(I, "USub", args[0], st)


# ------------------------------------------------------------------ containers' methods
def lmeth(*names):
    return handler(*["list." + n for n in names])


@lmeth("append")
def _lappend(I, args, kw, st):
    v, x = args
    c = st.heap[v.id]
    st.heap[v.id] = ListC(c.segs + (("i", x),))
    return NONE


_lappend.rawun = True


@lmeth("extend")
def _lextend(I, args, kw, st):
    I.list_extend(args[0], args[1], st)
    return NONE


@lmeth("insert")
def _linsert(I, args, kw, st):
    c = st.heap[args[0].id]
    i = const_of(args[1])
    if not (c.concrete() or (i == 0)):
        raise Unsupported("list.insert")
    segs = list(c.segs)
    segs.insert(i, ("i", args[2]))
    st.heap[args[0].id] = ListC(segs)
    return NONE


@lmeth("pop")
def _lpop(I, args, kw, st):
    c = st.heap[args[0].id]
    i = const_of(args[1]) if len(args) > 1 else -1
    if not c.segs:
        I.abort(st, TRUE, "IndexError")
    if c.concrete() or (c.segs[i][0] == "i" and (i in (0, -1))):
        segs = list(c.segs)
        try:
            x = segs.pop(i)
        except IndexError:
            I.abort(st, TRUE, "IndexError")
        st.heap[args[0].id] = ListC(segs)
        return x[1]
    raise Unsupported("list.pop")


@lmeth("copy")
def _lcopy(I, args, kw, st):
    return I.new(st, st.heap[args[0].id])


@lmeth("reverse")
def _lreverse(I, args, kw, st):
    it = _reversed(I, [args[0]], {}, st)
    st.heap[args[0].id] = ListC(it.segs)
    return NONE


@lmeth("clear")
def _lclear(I, args, kw, st):
    st.heap[args[0].id] = ListC(())
    return NONE


@lmeth("sort")
def _lsort(I, args, kw, st):
    r = _sorted(I, [args[0]], kw, st)
    st.heap[args[0].id] = st.heap[r.id]
    return NONE


@handler("list.index", "tuple.index")
def _lindex(I, args, kw, st):
    items = I.concrete_items(args[0], st)
    if items is None:
        raise Unsupported("index in symbolic list")
    conds = [eqv(I, x, args[1], st) for x in items]
    I.abort(st, not_(or_(*conds)) if conds else TRUE, "ValueError")
    r = const(len(items) - 1)
    for i in range(len(items) - 2, -1, -1):
        r = ite(conds[i], const(i), r)
    return S(r, "i")


@handler("list.count", "tuple.count")
def _lcount(I, args, kw, st):
    r = ZERO
    for s in I.segments(args[0], st):
        if s[0] == "i":
            r = add(r, ite(eqv(I, s[1], args[1], st), ONE, ZERO))
        else:
            r = add(r, bind("sum", s[1].with_cond(eqv(I, s[2], args[1], st)), ONE))
    return S(r, "i")


@lmeth("remove")
def _lremove(I, args, kw, st):
    raise Unsupported("list.remove")


def mapof(I, v, st):
    return st.heap[v.id]


@handler("dict.keys", "dict.__iter__")
def _dkeys(I, args, kw, st):
    c = mapof(I, args[0], st)
    return Partial("mapkeys", (args[0],), {})


@handler("dict.values")
def _dvalues(I, args, kw, st):
    c = mapof(I, args[0], st)
    if isinstance(c, DictC):
        return It([("i", v) for v in c.items.values()])
    l, m = fresh("i", name="l"), fresh("i", name="m")
    d = Dom("u", (l, m), (), (), subst(c.has, {c.l: l, c.m: m}))
    return It([("d", d, Cell(args[0], l, m) if isinstance(c.val, AV) else I.val_subst(c.val, {c.l: l, c.m: m}))])


@handler("dict.items")
def _ditems(I, args, kw, st):
    c = mapof(I, args[0], st)
    if isinstance(c, DictC):
        return It([("i", Tup([pv(k), v])) for k, v in c.items.items()])
    l, m = fresh("i", name="l"), fresh("i", name="m")
    d = Dom("u", (l, m), (), (), subst(c.has, {c.l: l, c.m: m}))
    if c.val is None:
        v = NONE
    else:
        v = Cell(args[0], l, m) if isinstance(c.val, AV) else I.val_subst(c.val, {c.l: l, c.m: m})
    return It([("d", d, Tup([Tup([S(l, "i"), S(m, "i")]), v]))])


@handler("dict.get")
def _dget(I, args, kw, st):
    c = mapof(I, args[0], st)
    dflt = args[2] if len(args) > 2 else kw.get("default", NONE)
    k = args[1]
    if isinstance(c, DictC):
        if is_const(k):
            return c.items.get(const_of(k), dflt)
        r = dflt
        for kk, x in list(c.items.items())[::-1]:
            r = I.merge_val(eqv(I, pv(kk), k, st), x, r)
        return r
    if not isinstance(k, Tup):
        return dflt
    l, m = k.items[0].t, k.items[1].t
    if c.val is None:
        return dflt
    v = Cell(args[0], l, m) if isinstance(c.val, AV) else I.val_subst(c.val, {c.l: l, c.m: m})
    h = simp_under(c.hasat(l, m), st.pc)
    if h is TRUE:
        return v
    if h is FALSE:
        return dflt
    return I.merge_val(h, v, dflt)


_dget.rawun = True


@handler("dict.pop")
def _dpop(I, args, kw, st):
    c = mapof(I, args[0], st)
    k = args[1]
    if isinstance(c, DictC) and is_const(k):
        kk = const_of(k)
        if kk not in c.items:
            if len(args) > 2:
                return args[2]
            I.abort(st, TRUE, "KeyError")
        d = dict(c.items)
        v = d.pop(kk)
        st.heap[args[0].id] = DictC(d)
        return v
    if isinstance(c, MapC) and isinstance(k, Tup):
        l, m = k.items[0].t, k.items[1].t
        if len(args) <= 2:
            I.abort(st, not_(c.hasat(l, m)), "KeyError")
        v = I.val_subst(c.val, {c.l: l, c.m: m})
        if isinstance(v, AV):
            v = I.new(st, v.c)
        if len(args) > 2:
            v = I.merge_val(c.hasat(l, m), v, args[2])
        st.heap[args[0].id] = MapC(c.l, c.m, and_(c.has, not_(and_(eq(c.l, l), eq(c.m, m)))), c.val, c.alias, c.ph)
        return v
    raise Unsupported("dict.pop")


_dpop.rawun = True


@handler("dict.update")
def _dupdate(I, args, kw, st):
    v = args[0]
    if len(args) > 1:
        o = I.content(args[1], st) if isinstance(args[1], Ref) else None
        c = mapof(I, v, st)
        if isinstance(o, DictC) and isinstance(c, DictC):
            st.heap[v.id] = DictC({**c.items, **o.items})
        elif isinstance(o, DictC) and not o.items:
            pass
        else:
            it = _ditems(I, [args[1]], {}, st) if isinstance(o, (MapC, DictC)) else args[1]

            def step(x, s2):
                k, y = I.unpack(x, [None, None], s2)
                I.setitem(v, k, y, s2)
                return _I().Out(s2)
            st.take(I.run_loop(I.segments(it, st), step, st).st)
    for k, x in kw.items():
        I.setitem(v, St(k), x, st)
    return NONE


_dupdate.rawun = True


@handler("dict.setdefault")
def _dsetdefault(I, args, kw, st):
    c = mapof(I, args[0], st)
    k = args[1]
    d = args[2] if len(args) > 2 else NONE
    h = contains(I, args[0], k, st)
    h = simp_under(h, st.pc)
    if h is not TRUE:
        if h is FALSE:
            I.setitem(args[0], k, d, st)
        else:
            s2 = st.fork()
            I.setitem(args[0], k, d, s2)
            st.take(I.merge(h, st.fork(), s2))
    return getitem_any(I, args[0], k, st)


@handler("dict.copy")
def _dcopy(I, args, kw, st):
    return I.new(st, mapof(I, args[0], st))


@handler("dict.clear")
def _dclear(I, args, kw, st):
    st.heap[args[0].id] = DictC({})
    return NONE


@handler("dict.__contains__", "list.__contains__", "set.__contains__")
def _dcontains(I, args, kw, st):
    return S(contains(I, args[0], args[1], st), "b")


@handler("dict.fromkeys")
def _dfromkeys(I, args, kw, st):
    raise Unsupported("fromkeys")


def _setm(op):
    def h(I, args, kw, st):
        r = args[0]
        for o in args[1:]:
            a = setlike(I, r, st)
            b = setlike(I, o, st)
            if b is None:
                b = setlike(I, make_set(I, o, st), st)
            if a is None:
                raise Unsupported("set operation")
            r = set_op(I, op, a, b, st)
        return r
    return h


for _n, _o in (("union", "BitOr"), ("intersection", "BitAnd"), ("difference", "Sub"), ("symmetric_difference", "BitXor")):
    HANDLERS["set." + _n] = _setm(_o)


@handler("set.update")
def _supdate(I, args, kw, st):
    r = _setm("BitOr")(I, args, kw, st)
    st.heap[args[0].id] = st.heap[r.id]
    return NONE


@handler("set.add")
def _sadd(I, args, kw, st):
    c = st.heap[args[0].id]
    if isinstance(c, ListC):
        raise Unsupported("set.add to constants")
    x = args[1]
    if not (isinstance(x, Tup) and len(x.items) == 2):
        raise Unsupported("set element")
    st.heap[args[0].id] = SetC(c.l, c.m, or_(c.has, and_(eq(c.l, x.items[0].t), eq(c.m, x.items[1].t))))
    return NONE


@handler("set.issubset")
def _issubset(I, args, kw, st):
    return compare(I, "LtE", args[0], make_set(I, args[1], st), st)


@handler("set.issuperset")
def _issuperset(I, args, kw, st):
    return compare(I, "GtE", args[0], make_set(I, args[1], st), st)


@handler("set.copy")
def _scopy(I, args, kw, st):
    s = setlike(I, args[0], st)
    return I.new(st, SetC(s.l, s.m, s.has))


# ------------------------------------------------------------------ strings' methods
def str_method(I, n, args, kw, st):
    v = args[0]
    c = v.const()
    a = args[1:]
    if n == "format":
        return str_format(I, v, a, kw, st)
    if n == "join":
        it = a[0]
        segs = I.segments(it, st)
        parts = []
        if all(s[0] == "i" for s in segs):
            for i, s in enumerate(segs):
                if i:
                    parts.append(v.t)
                if not isinstance(s[1], St):
                    I.abort(st, TRUE, "TypeError")
                parts.append(s[1].t)
            return St(concat(parts))
        return St(mk("join", (v.t, segs_text(I, segs, st)), "s"))
    if isinstance(v, FileText) and (n == "splitlines" and not a or n == "split" and len(a) == 1 and isinstance(a[0], St) and a[0].const() == "\n"):
        return I.new(st, ListC(v.segs + ((("i", St("")),) if n == "split" else ())))
    if n == "splitlines" and not a and c is None:
        ls = textio.lines_of(v.t)
        if ls is not None:
            return I.lst(st, [St(x) for x in ls])
    if n == "split":
        if c is not None and all(is_const(x) for x in a):
            return I.lst(st, [St(x) for x in c.split(*[const_of(x) for x in a])])
        if not a or a[0] is NONE:
            toks = textio.tokens_of(v.t)
            if toks is not None:
                return I.lst(st, [St(x) for x in toks])
            return Partial("strtokens", (textio.strip_core(v.t),), {})
        if len(a) == 1 and a[0].const() == "\n":
            ls = textio.lines_of(concat([v.t, string("\n.")]))
            if ls is not None:
                return I.lst(st, [St(x) for x in ls[:-1]])
        return Partial("strtokens", (mk("pysplit", (v.t,) + tuple(x.t for x in a), "s"),), {})
    if c is not None and all(is_const(x) for x in a):
        r = getattr(c, n)(*[const_of(x) for x in a])
        if isinstance(r, str):
            return St(r)
        if isinstance(r, bool):
            return S(const(r), "b")
        if isinstance(r, int):
            return I_(r)
        if isinstance(r, tuple):
            return Tup([St(x) for x in r])
        if isinstance(r, list):
            return I.lst(st, [St(x) for x in r])
        raise Unsupported("str." + n)
    ts = [v.t]
    for x in a:
        if isinstance(x, (S, St)):
            ts.append(x.t)
        elif isinstance(x, Tup) and n in ("startswith", "endswith"):
            return S(or_(*[mk("py:" + n, (v.t, y.t), "b") for y in x.items]), "b")
        else:
            raise Unsupported("str.%s argument" % n)
    if n in ("startswith", "endswith", "isdigit", "isspace"):
        return S(mk("py:" + n, tuple(ts), "b"), "b")
    if n in ("find", "rfind", "count", "index"):
        return S(mk("py:" + n, tuple(ts), "i"), "i")
    if n in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "capitalize", "ljust", "rjust", "center", "zfill",
             "removesuffix", "removeprefix", "expandtabs", "swapcase", "casefold"):
        return St(mk("py:" + n, tuple(ts), "s"))
    if n in ("partition", "rpartition"):
        return Tup([St(mk("tupget", (mk("py:" + n, tuple(ts), "o"), const(i)), "s")) for i in range(3)])
    raise Unsupported("str." + n)


def segs_text(I, segs, st):
    parts = []
    for s in segs:
        if s[0] == "i":
            parts.append(mk("cap1", (mk("tup", (s[1].t,), "o"),), "o"))
        elif s[0] == "d":
            parts.append(bind("seq", s[1], s[2].t))
        else:
            parts.append(bind("cat", s[1], segs_text(I, s[2], st)))
    return parts[0] if len(parts) == 1 and parts[0].op != "cap1" else mk("tcat", tuple(parts), "o")


# ------------------------------------------------------------------ os / io / random
def _osf(op, sort="s"):
    def h(I, args, kw, st):
        v = args[0]
        if isinstance(v, Gt):
            return gate_apply(I, v.c, lambda s: h(I, [v.a], kw, s), lambda s: h(I, [v.b], kw, s), st)
        if not isinstance(v, St):
            I.abort(st, TRUE, "TypeError")
        if v.const() is not None and op in ("basename", "dirname"):
            import posixpath
            return St(getattr(posixpath, op)(v.const()))
        t = mk(op, (v.t,), sort)
        return S(t, "b") if sort == "b" else St(t)
    return h


for _n in ("basename", "dirname", "abspath", "realpath", "normpath", "expanduser", "normcase"):
    HANDLERS["os.path." + _n] = _osf(_n)
for _n in ("exists", "isfile", "isdir", "lexists"):
    HANDLERS["os.path." + _n] = _osf(_n, "b")


@handler("os.path.samefile")
def _samefile(I, args, kw, st):
    a, b = args
    for x in (a, b):
        I.abort(st, not_(mk("exists", (x.t,), "b")), "FileNotFoundError")
    return S(mk("samefile", (a.t, b.t), "b"), "b")


@handler("os.path.splitext")
def _splitext(I, args, kw, st):
    v = args[0]
    if v.const() is not None:
        import posixpath
        return Tup([St(x) for x in posixpath.splitext(v.const())])
    return Tup([St(mk("splitext0", (v.t,), "s")), St(mk("splitext1", (v.t,), "s"))])


@handler("os.path.split")
def _ossplit(I, args, kw, st):
    t = args[0].t
    return Tup([St(mk("dirname", (t,), "s")), St(mk("basename", (t,), "s"))])


@handler("os.path.join")
def _osjoin(I, args, kw, st):
    if all(a.const() is not None for a in args):
        import posixpath
        return St(posixpath.join(*[a.const() for a in args]))
    return St(mk("pjoin", tuple(a.t for a in args), "s"))


@handler("os.fspath")
def _fspath(I, args, kw, st):
    return args[0]


_rndsite = {}


def draw(I, st, kind, shape=None):
    """one fresh random number per draw site; the site's index variables are added by loops"""
    I.effect(st, "random." + kind, [], {})
    return S(mk("draw", (kind,), "r"), "f")


declare("draw", "r")


@handler("random.random", "numpy.random.random_sample")
def _rr(I, args, kw, st):
    I.effect(st, "random.uniform", [], {})
    return S(mk("rand", ("uniform", I.rand_site()), "r"), "f")


def _nprand(kind):
    def h(I, args, kw, st):
        I.effect(st, "random." + kind, [], {})
        size = kw.get("size")
        if kind in ("rand", "randn"):
            dims = [rng(a.t) for a in args]
        else:
            if size is None and kind in ("random", "standard_normal") and args:
                size = args[0]
            dims = shape_dims(I, size, st) if size is not None and size is not NONE else []
        k = {"rand": "uniform", "random": "uniform", "randn": "normal", "standard_normal": "normal", "normal": "normal", "uniform": "uniform"}.get(kind, kind)
        t = mk("rand", (k, I.rand_site()) + tuple(v for d in dims for v in d.vars), "r")
        if kind == "normal":
            loc = arg(args, kw, 0, "loc", S(ZERO, "f"))
            sc = arg(args, kw, 1, "scale", S(ONE, "f"))
            t = add(loc.t, mul(sc.t, t))
        if kind == "uniform":
            lo = arg(args, kw, 0, "low", S(ZERO, "f"))
            hi = arg(args, kw, 1, "high", S(ONE, "f"))
            t = add(lo.t, mul(sub(hi.t, lo.t), t))
        if not dims:
            return S(t, "f", True)
        return I.arr_new(st, dims, t, "f")
    return h


for _n in ("rand", "random", "randn", "standard_normal", "normal", "uniform"):
    HANDLERS["numpy.random." + _n] = _nprand(_n)


def scalar(I, v, st):
    if isinstance(v, S):
        return v
    c = I.arr(v, st)
    if c.dims:
        raise Unsupported("array where a number is expected")
    return S(c.body, c.k, True)


@handler("quaternion.from_euler_angles")
def _from_euler(I, args, kw, st):
    a = [kw[k] if k in kw else None for k in ("alpha_beta_gamma", "beta", "gamma")]
    for i, x in enumerate(args):
        a[i] = x
    if a[1] is not None and a[1] is not NONE:
        c = a
    else:
        arr = I.arr(a[0], st)
        if len(arr.dims) != 1 or not arr.dims[0].simple():
            raise Unsupported("array of rotations")
        I.abort(st, not_(eq(dim_n(arr.dims[0]), const(3))), "ValueError")
        c = [S(arr.at([(const(i),)]), arr.k) for i in range(3)]
    return ExtO("rotation", tuple(num(scalar(I, x, st).t) for x in c))


declare("wigner", "c")


@handler("spherical_functions.Wigner_D_element")
def _wigner(I, args, kw, st):
    R = args[0]
    if not (isinstance(R, ExtO) and isinstance(R.key, tuple)):
        raise Unsupported("rotation %r" % (R,))
    names = ("ell", "mp", "m")
    ix = [num(scalar(I, arg(args, kw, i + 1, n), st).t) for i, n in enumerate(names)]
    return S(atom("wigner", *(tuple(R.key) + tuple(ix))), "c", True)


def getitem_index(I, v, k, st):
    return getitem_any(I, v, k, st)


# ------------------------------------------------------------------ questions of the checking clients
def storage(I, v, st, seen, out):
    """identities of the mutable storage reachable from a value"""
    if isinstance(v, Ref):
        if v.id in seen:
            return
        seen.add(v.id)
        c = st.heap.get(v.id)
        if isinstance(c, ArrC):
            out.add(v.id)
        elif isinstance(c, MapC):
            out.add(v.id)
            out |= set(c.alias)
        elif isinstance(c, SetC):
            out.add(v.id)
        elif isinstance(c, ObjC):
            out.add(v.id)
            for x in c.attrs.values():
                storage(I, x, st, seen, out)
        elif isinstance(c, DictC):
            out.add(v.id)
            for x in c.items.values():
                storage(I, x, st, seen, out)
        elif isinstance(c, ListC):
            out.add(v.id)
            for s in c.segs:
                if s[0] != "ph":
                    storage(I, s[1] if s[0] == "i" else s[2] if s[0] == "d" else NONE, st, seen, out)
    elif isinstance(v, View):
        storage(I, v.base, st, seen, out)
    elif isinstance(v, Cell):
        out.add(v.mref.id)
    elif isinstance(v, Tup):
        for x in v.items:
            storage(I, x, st, seen, out)
    elif isinstance(v, Gt):
        storage(I, v.a, st, seen, out)
        storage(I, v.b, st, seen, out)
    elif isinstance(v, It):
        for s in v.segs:
            if s[0] == "i":
                storage(I, s[1], st, seen, out)
    elif isinstance(v, BM):
        storage(I, v.self, st, seen, out)


@handler("builtins.vc_shares")
def _vc_shares(I, args, kw, st):
    a, b = set(), set()
    storage(I, args[0], st, set(), a)
    storage(I, args[1], st, set(), b)
    return S(const(bool(a & b)), "b")


@handler("builtins.vc_kind")
def _vc_kind(I, args, kw, st):
    v = args[0]
    if isinstance(v, S):
        return St(v.k)
    c = I.arr(v, st)
    return St(c.k)


from . import textio
from . import ext
