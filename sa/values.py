"""Abstract values and heap contents of the value-graph analysis."""
from .terms import *


class Unsupported(Exception):
    pass


class V:
    __slots__ = ()


class S(V):
    """numeric scalar; k in b,i,f,c; np: numpy scalar (True) or python number (False)"""
    __slots__ = ("t", "k", "np")

    def __init__(self, t, k, np=False):
        self.t, self.k, self.np = t, k, np

    def __repr__(self):
        return "S(%s:%s)" % (show(self.t, 4), self.k)


class St(V):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t if isinstance(t, T) else string(t)

    def const(self):
        return self.t.args[0] if self.t.op == "str" else None

    def __repr__(self):
        return "St(%s)" % show(self.t, 4)


class FileText(St):
    """the whole text of a file, with the lines it is made of"""
    __slots__ = ("segs",)

    def __init__(self, t, segs):
        self.t, self.segs = t, segs


class NoneV(V):
    def __repr__(self):
        return "None"


NONE = NoneV()


class EllV(V):
    pass


ELL = EllV()


class Tup(V):
    __slots__ = ("items", "thin")

    def __init__(self, items):
        self.items = tuple(items)
        self.thin = None

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref%d" % self.id


class Cell(V):
    """array stored in a coefficient map under key (l, m): reads and writes go to the map"""
    __slots__ = ("mref", "l", "m")

    def __init__(self, mref, l, m):
        self.mref, self.l, self.m = mref, l, m

    def __repr__(self):
        return "Cell(%r,%s,%s)" % (self.mref, show(self.l, 3), show(self.m, 3))


class View(V):
    """basic-indexing view.  sel: per base axis either ('x', index tuple) or ('s', viewaxis, offset, step)
    axes: list of ('b', base axis) or ('n',) for the view's own axes"""
    __slots__ = ("base", "sel", "axes", "doms")

    def __init__(self, base, sel, axes, doms):
        self.base, self.sel, self.axes, self.doms = base, sel, axes, doms


class AV(V):
    """array by value (inside symbolic sequences)"""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class FnV(V):
    __slots__ = ("node", "mod", "fid", "name", "cls", "defaults", "kwdefaults", "deco")

    def __init__(self, node, mod, fid, name, cls=None, defaults=(), kwdefaults=None, deco=()):
        self.node, self.mod, self.fid, self.name, self.cls = node, mod, fid, name, cls
        self.defaults, self.kwdefaults, self.deco = defaults, kwdefaults or {}, deco

    def __repr__(self):
        return "Fn(%s.%s)" % (self.mod, self.name)


class BM(V):
    __slots__ = ("self", "fn")

    def __init__(self, self_, fn):
        self.self, self.fn = self_, fn

    def __repr__(self):
        return "BM(%r.%r)" % (self.self, self.fn)


class Partial(V):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class B(V):
    """builtin or external thing by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, B) and o.name == self.name

    def __hash__(self):
        return hash(("B", self.name))

    def __repr__(self):
        return "B(%s)" % self.name


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Mod(%s)" % self.name


class ClsV(V):
    __slots__ = ("name", "mod", "node", "attrs", "bases")

    def __init__(self, name, mod, node, attrs, bases):
        self.name, self.mod, self.node, self.attrs, self.bases = name, mod, node, attrs, bases

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, ClsV):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return "Cls(%s)" % self.name


class Dt(V):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class Gt(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Gt(%s,%r,%r)" % (show(self.c, 3), self.a, self.b)


class Un(V):
    __slots__ = ("why", "deps")

    def __init__(self, why, deps=()):
        self.why, self.deps = str(why), deps

    def __repr__(self):
        return "Un(%s)" % self.why


class Sl(V):
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class ExtO(V):
    """object handed out by an external library; path describes how it was obtained"""
    __slots__ = ("path", "key")

    def __init__(self, path, key=None):
        self.path, self.key = path, key

    def __repr__(self):
        return "Ext(%s)" % self.path


class It(V):
    """evaluated iterable given by segments (generators, zip, range ...)"""
    __slots__ = ("segs", "src")

    def __init__(self, segs, src=None):
        self.segs, self.src = tuple(segs), src


class Ufn(V):
    """uninterpreted numeric function supplied by the harness"""
    __slots__ = ("name", "k", "shape")

    def __init__(self, name, k="f", shape=None):
        self.name, self.k, self.shape = name, k, shape


class Eff(V):
    """recorded external effect"""
    __slots__ = ("what", "args", "kw", "line", "where")

    def __init__(self, what, args, kw, line=0, where=""):
        self.what, self.args, self.kw, self.line, self.where = what, tuple(args), dict(kw), line, where

    def __repr__(self):
        return "Eff(%s,%r,%r)" % (self.what, self.args, self.kw)


# ------------------------------------------------------------------ heap contents
class C:
    __slots__ = ()


class ArrC(C):
    __slots__ = ("dims", "body", "k", "thin")

    def __init__(self, dims, body, k, thin=None):
        # thin: condition under which the array really has one axis, of length 0 (made from an empty list of rows)
        self.dims, self.body, self.k, self.thin = tuple(dims), body, k, thin

    def at(self, idx):
        """idx: list of index tuples, one per axis"""
        m = {}
        for d, ix in zip(self.dims, idx):
            for v, x in zip(d.vars, ix):
                m[v] = x
        return subst(self.body, m)

    def fresh(self):
        """same content over fresh index variables"""
        m = {}
        nd = []
        for d in self.dims:
            n = d.inst()
            m.update(zip(d.vars, n.vars))
            nd.append(n)
        return ArrC(nd, subst(self.body, m), self.k)

    def __repr__(self):
        return "Arr(%s;%s:%s)" % ([show(d.size(), 3) for d in self.dims], show(self.body, 4), self.k)


class ListC(C):
    """segments: ('i', value) | ('d', Dom, value) | ('g', Dom, segs) | ('ph', id)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def concrete(self):
        return all(s[0] == "i" for s in self.segs)

    def values(self):
        return [s[1] for s in self.segs]

    def __repr__(self):
        return "List%r" % (self.segs,)


class DictC(C):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = dict(items)


class MapC(C):
    """coefficient-indexed map: has / val are given over the two key variables"""
    __slots__ = ("l", "m", "has", "val", "alias", "ordered", "ph")

    def __init__(self, l, m, has, val, alias=frozenset(), ph=None):
        self.l, self.m, self.has, self.val, self.alias, self.ph = l, m, has, val, alias, ph

    def hasat(self, a, b):
        return subst(self.has, {self.l: a, self.m: b})


class SetC(C):
    __slots__ = ("l", "m", "has")

    def __init__(self, l, m, has):
        self.l, self.m, self.has = l, m, has


class ObjC(C):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class FrameC(C):
    __slots__ = ("vars", "parent", "mod")

    def __init__(self, vars, parent, mod):
        self.vars, self.parent, self.mod = vars, parent, mod


def const_of(v):
    """python constant of a value or raise"""
    if isinstance(v, S):
        if v.t.op == "c" and not isinstance(cval(v.t), tuple):
            f = cval(v.t)
            return int(f) if f.denominator == 1 and v.k in "ib" else float(f)
        if v.t is TRUE:
            return True
        if v.t is FALSE:
            return False
    if isinstance(v, St) and v.t.op == "str":
        return v.t.args[0]
    if v is NONE:
        return None
    if isinstance(v, Tup):
        return tuple(const_of(x) for x in v.items)
    raise Unsupported("not a constant: %r" % (v,))


def is_const(v):
    try:
        const_of(v)
        return True
    except Unsupported:
        return False


def I_(n):
    return S(const(int(n)), "i")


def kjoin(a, b):
    o = "bifc"
    return o[max(o.index(a), o.index(b))]
