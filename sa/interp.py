"""Value-graph construction: a flow-sensitive abstract interpretation of the package
source.  Every program point's values are terms over the inputs; joins gate the two
sides, loops are replaced by closed reductions (never iterated over data), failures
are collected as (condition, exception) pairs.  Source is parsed, never executed.
"""
import ast
import os
from .terms import *
from . import terms as tm
from .values import *

EFF = 0


class Dead(Exception):
    """the current path cannot continue"""


class St_(object):
    pass


class State:
    __slots__ = ("heap", "pc", "br")

    def __init__(self, heap=None, pc=TRUE, br=TRUE):
        self.heap = heap if heap is not None else {EFF: ListC(())}
        self.pc, self.br = pc, br

    def fork(self):
        return State(dict(self.heap), self.pc, self.br)

    def take(self, o):
        self.heap, self.pc, self.br = o.heap, o.pc, o.br


class Out:
    __slots__ = ("st", "rets", "brks", "conts")

    def __init__(self, st, rets=(), brks=(), conts=()):
        self.st, self.rets, self.brks, self.conts = st, list(rets), list(brks), list(conts)


_ids = itertools.count(1)

EXC = {"AssertionError", "IndexError", "KeyError", "ValueError", "TypeError", "RuntimeError", "NotImplementedError",
       "Exception", "FileExistsError", "OSError", "StopIteration", "ZeroDivisionError", "AttributeError",
       "FileNotFoundError", "ImportError", "ArithmeticError", "LookupError", "NameError", "UnicodeDecodeError",
       "PermissionError", "IOError", "SystemExit", "Warning", "UserWarning", "DeprecationWarning", "RuntimeWarning"}
EXC_SUP = {"IndexError": ("LookupError",), "KeyError": ("LookupError",), "FileNotFoundError": ("OSError", "IOError"),
           "FileExistsError": ("OSError", "IOError"), "ZeroDivisionError": ("ArithmeticError",), "NotImplementedError": ("RuntimeError",),
           "UnicodeDecodeError": ("ValueError",)}


class Program:
    """parsed package sources"""

    def __init__(self, root, package="starwinds_magnetogram", extra=None):
        self.root, self.package = root, package
        self.trees = {}
        self.files = {}
        pk = os.path.join(root, package)
        for d, _, fs in os.walk(pk):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    src = open(p, encoding="utf-8").read()
                    self.files[rel] = p
                    self.trees[rel] = ast.parse(src, p)
        for name, src in (extra or {}).items():
            self.files[name] = "<%s>" % name
            self.trees[name] = ast.parse(src)


INTERNAL = (IndexError, AttributeError, TypeError, AssertionError, ValueError, ZeroDivisionError, OverflowError, NotImplementedError)
DEBUG = bool(os.environ.get("SA_DEBUG"))


class Analyzer:
    def __init__(self, prog):
        self.prog = prog
        self.aborts = []          # (cond, kind, where)
        self.taints = []
        self.base = State()
        self.modframes = {}
        self.loading = []
        self.stack = []
        self.cur = ("", "", 0)
        self.widen = None       # module whose large integer literals stand for any size
        self.visited = set()      # functions analysed
        self.hooks = {}           # dotted function name -> python callable replacing it
        self.noinline = set()
        self.steps = 0
        self.max_steps = 400000
        self.nrand = 0
        self.yields = []          # yield callbacks
        self.log_effects = False
        self.trying = 0
        self.unrollable = 0
        self.snaps = {}
        self.shared = {}          # arrays held by a memoising decorator
        self.shared_writes = []
        from . import npmodel
        self.npm = npmodel
        self.params_ids = set()

    # -------------------------------------------------------------- misc
    def where(self):
        return "%s:%s:%d" % self.cur

    def taint(self, why):
        self.taints.append("%s @ %s" % (why, self.where()))

    def new(self, st, content):
        i = next(_ids)
        st.heap[i] = content
        return Ref(i)

    def arr_new(self, st, dims, body, k):
        return self.new(st, ArrC(dims, body, k))

    def lst(self, st, values):
        return self.new(st, ListC([("i", v) for v in values]))

    def abort(self, st, cond, kind):
        """failure `kind` when cond holds; execution continues under not cond"""
        cond = simp_under(cond, st.pc)
        if cond is FALSE:
            return
        e = (and_(st.pc, cond), kind, self.where())
        self.aborts.append(e)
        if self.trying:
            self.snaps[id(e)] = (e, dict(st.heap))
        st.pc = and_(st.pc, not_(cond))
        if cond is TRUE or st.pc is FALSE:
            raise Dead()

    # -------------------------------------------------------------- merging
    def merge(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        h = {}
        ha, hb = a.heap, b.heap
        for i in ha:
            x = ha[i]
            y = hb.get(i)
            if y is None and i < 0 and isinstance(x, ListC):
                y = ListC(())
            if y is None or x is y:
                h[i] = x
            else:
                h[i] = self.merge_content(c, x, y)
        for i in hb:
            if i not in ha:
                h[i] = self.merge_content(c, ListC(()), hb[i]) if i < 0 and isinstance(hb[i], ListC) else hb[i]
        pc = and_(*[k for k in conjuncts(a.pc) if k in set(conjuncts(b.pc))])
        br = and_(*[k for k in conjuncts(a.br) if k in set(conjuncts(b.br))])
        s = State(h, pc, br)
        return s

    def merge_vars(self, c, x, y):
        out = {}
        for k in x:
            if k in y:
                out[k] = x[k] if x[k] is y[k] else self.merge_val(c, x[k], y[k])
            else:
                out[k] = Gt(c, x[k], Un("undefined %s" % k))
        for k in y:
            if k not in x:
                out[k] = Gt(c, Un("undefined %s" % k), y[k])
        return out

    def merge_content(self, c, x, y):
        if type(x) is not type(y):
            if isinstance(x, DictC) and not x.items and isinstance(y, MapC):
                x = MapC(y.l, y.m, FALSE, y.val, y.alias)
            elif isinstance(y, DictC) and not y.items and isinstance(x, MapC):
                y = MapC(x.l, x.m, FALSE, x.val, x.alias)
            else:
                return ArrC((), opaque("join of different containers"), "f")
        if isinstance(x, FrameC):
            return FrameC(self.merge_vars(c, x.vars, y.vars), x.parent, x.mod)
        if isinstance(x, ObjC):
            return ObjC(x.cls, self.merge_vars(c, x.attrs, y.attrs))
        if isinstance(x, DictC):
            return DictC(self.merge_vars(c, x.items, y.items))
        if isinstance(x, ArrC):
            r = self.merge_arr(c, x, y)
            return r if r is not None else ArrC(x.dims, opaque("join of arrays of different shape"), x.k)
        if isinstance(x, ListC):
            if len(x.segs) == len(y.segs) and all(p[0] == q[0] == "i" for p, q in zip(x.segs, y.segs)):
                return ListC([("i", p[1] if p[1] is q[1] else self.merge_val(c, p[1], q[1])) for p, q in zip(x.segs, y.segs)])
            n = 0
            while n < min(len(x.segs), len(y.segs)) and (x.segs[n] is y.segs[n] or (x.segs[n][0] == "ph" and x.segs[n] == y.segs[n])):
                n += 1
            return ListC(list(x.segs[:n]) + [cond_seg(c, s) for s in x.segs[n:]] + [cond_seg(not_(c), s) for s in y.segs[n:]])
        if isinstance(x, MapC):
            m = {y.l: x.l, y.m: x.m}
            yh = subst(y.has, m)
            if x.val is None or x.has is FALSE:
                val = self.val_subst(y.val, m) if y.val is not None else x.val
            elif y.val is None or y.has is FALSE:
                val = x.val
            else:
                val = self.merge_val(c, x.val, self.val_subst(y.val, m))
            return MapC(x.l, x.m, ite(c, x.has, yh), val, x.alias | y.alias, x.ph)
        if isinstance(x, SetC):
            return SetC(x.l, x.m, ite(c, x.has, subst(y.has, {y.l: x.l, y.m: x.m})))
        return x

    def merge_arr(self, c, x, y):
        if len(x.dims) != len(y.dims):
            return None
        m = {}
        for p, q in zip(x.dims, y.dims):
            if p != q:
                return None
            m.update(zip(q.vars, p.vars))
        return ArrC(x.dims, ite(c, x.body, subst(y.body, m)), kjoin(x.k, y.k))

    def merge_same(self, c, x, y, st):
        """merge arrays whose extents are equal on every path that reaches here"""
        if len(x.dims) != len(y.dims):
            return None
        m = {}
        for p, q in zip(x.dims, y.dims):
            if not (p.simple() and q.simple() and simp_under(eq(p.size(), q.size()), st.pc) is TRUE):
                return None
            m.update(zip(p.vars, q.vars))
        return ArrC(y.dims, ite(c, subst(x.body, m), y.body), kjoin(x.k, y.k))

    def merge_val(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, S) and isinstance(b, S):
            return S(ite(c, a.t, b.t), kjoin(a.k, b.k), a.np or b.np)
        if isinstance(a, St) and isinstance(b, St):
            return St(ite(c, a.t, b.t))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, Cell) and isinstance(b, Cell) and a.mref == b.mref and a.l is b.l and a.m is b.m:
            return a
        if isinstance(a, B) and a == b:
            return a
        if isinstance(a, ExtO) and isinstance(b, ExtO) and a.path == b.path and a.key == b.key:
            return a
        if isinstance(a, BM) and isinstance(b, BM) and a.fn is b.fn and a.self == b.self:
            return a
        if isinstance(a, AV) and isinstance(b, AV):
            r = self.merge_arr(c, a.c, b.c)
            if r is not None:
                return AV(r)
        return Gt(c, a, b)

    # substitution of loop variables inside values
    def val_subst(self, v, m):
        if isinstance(v, S):
            return S(subst(v.t, m), v.k, v.np)
        if isinstance(v, St):
            return St(subst(v.t, m))
        if isinstance(v, Tup):
            return Tup([self.val_subst(x, m) for x in v.items])
        if isinstance(v, AV):
            return AV(self.arr_subst(v.c, m))
        if isinstance(v, Gt):
            return self.merge_val(subst(v.c, m), self.val_subst(v.a, m), self.val_subst(v.b, m))
        if isinstance(v, Cell):
            return Cell(v.mref, subst(v.l, m), subst(v.m, m))
        if isinstance(v, Eff):
            return Eff(v.what, [self.val_subst(x, m) for x in v.args], {k: self.val_subst(x, m) for k, x in v.kw.items()}, v.line, v.where)
        if isinstance(v, ArrC):
            return self.arr_subst(v, m)
        if isinstance(v, It):
            return It([seg_map(s, lambda x: self.val_subst(x, m), m) for s in v.segs], v.src)
        if isinstance(v, ExtO) and isinstance(v.key, tuple):
            return ExtO(v.path, tuple(subst(k, m) if isinstance(k, T) else k for k in v.key))
        if isinstance(v, View):
            return v
        return v

    def arr_subst(self, c, m):
        return ArrC([dom_subst(d, m) for d in c.dims], subst(c.body, m), c.k)

    def freeze(self, v, st, marker):
        """snapshot of heap values created inside a loop body"""
        if isinstance(v, (Ref, View, Cell, Gt)):
            if isinstance(v, Ref):
                c = st.heap.get(v.id)
                if v.id >= marker:
                    if isinstance(c, ArrC):
                        return AV(c)
                    if isinstance(c, ListC) and c.concrete():
                        return It([("i", self.freeze(x, st, marker)) for x in c.values()], "list")
                    if isinstance(c, ListC):
                        from .loops import smap_freeze
                        return It([smap_freeze(self, x, st, marker) for x in c.segs], "list")
                    return Un("object created in a loop")
                return v
            if isinstance(v, Gt):
                return Gt(v.c, self.freeze(v.a, st, marker), self.freeze(v.b, st, marker))
            if isinstance(v, Cell):
                return AV(self.content(v, st)) if isinstance(self.content(v, st), ArrC) else v
            c = self.content(v, st)
            if isinstance(c, ArrC):
                return AV(c)
            return Un("view in a loop")
        if isinstance(v, Tup):
            return Tup([self.freeze(x, st, marker) for x in v.items])
        if isinstance(v, Eff):
            return Eff(v.what, [self.freeze(x, st, marker) for x in v.args], {k: self.freeze(x, st, marker) for k, x in v.kw.items()}, v.line, v.where)
        return v

    def thaw(self, v, st):
        if isinstance(v, AV):
            return self.new(st, v.c)
        if isinstance(v, Tup):
            return Tup([self.thaw(x, st) for x in v.items])
        if isinstance(v, Gt):
            return Gt(v.c, self.thaw(v.a, st), self.thaw(v.b, st))
        if isinstance(v, It) and v.src == "list":
            return self.new(st, ListC(v.segs))
        return v

    # -------------------------------------------------------------- heap access
    def content(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.id]
        if isinstance(v, AV):
            return v.c
        if isinstance(v, Cell):
            mc = st.heap[v.mref.id]
            m = {mc.l: v.l, mc.m: v.m}
            r = self.val_subst(mc.val, m)
            if isinstance(r, AV):
                r = r.c
            return r
        if isinstance(v, View):
            b = self.content(v.base, st)
            idx = []
            for s, bd in zip(v.sel, b.dims):
                if s[0] == "x":
                    idx.append(s[1])
                elif s[0] == "w":
                    idx.append(tuple(v.doms[s[1]].vars))
                elif s[0] == "p":
                    p = add(s[2], mul(s[3], v.doms[s[1]].vars[0]))
                    idx.append(tuple(self.npm.nth_of(bd, p, w) for w in bd.vars))
                else:
                    _, ax, off, step = s
                    idx.append((add(off, mul(step, v.doms[ax].vars[0])),))
            return ArrC(v.doms, b.at(idx), b.k)
        return None

    def write_content(self, v, c, st, cond=TRUE):
        if isinstance(v, Ref):
            if v.id in self.shared:
                self.shared_writes.append((and_(st.pc, cond), self.shared[v.id], self.where()))
            st.heap[v.id] = c
            for i, x in list(st.heap.items()):
                if isinstance(x, MapC) and v.id in x.alias and i != v.id:
                    st.heap[i] = MapC(x.l, x.m, x.has, self.opaque_val(x.val, "stored array modified through another reference"), x.alias, x.ph)
        elif isinstance(v, Cell):
            mc = st.heap[v.mref.id]
            here = and_(eq(mc.l, v.l), eq(mc.m, v.m))
            old = mc.val
            val = self.merge_val(here, AV(c), old if isinstance(old, AV) else old)
            if isinstance(val, Gt):
                val = self.opaque_val(mc.val, "entry shape changed")
            st.heap[v.mref.id] = MapC(mc.l, mc.m, mc.has, val, mc.alias, mc.ph)
        elif isinstance(v, View):
            b = self.content(v.base, st)
            conds = []
            vidx = [None] * len(v.doms)
            for d, s in zip(b.dims, v.sel):
                if s[0] == "x":
                    conds += [eq(x, y) for x, y in zip(d.vars, s[1])]
                elif s[0] == "p":
                    raise Unsupported("store into a slice of a filtered array")
                elif s[0] == "w":
                    vidx[s[1]] = tuple(d.vars)
                else:
                    _, ax, off, step = s
                    if step is ONE:
                        e = sub(d.vars[0], off)
                    elif step is NEG1:
                        e = sub(off, d.vars[0])
                    else:
                        e = fn("floordiv", sub(d.vars[0], off), step)
                        conds.append(eq(fn("mod", sub(d.vars[0], off), step), ZERO))
                    vidx[ax] = (e,)
                    conds.append(and_(le(ZERO, e), lt(e, v.doms[ax].his[0])))
            for i, x in enumerate(vidx):
                if x is None:
                    vidx[i] = tuple(ZERO for _ in v.doms[i].vars)
            body = ite(and_(*conds), cast_term(c.at(vidx), c.k, b.k), b.body)
            self.write_content(v.base, ArrC(b.dims, body, b.k), st, cond)
        elif isinstance(v, Gt):
            for arm, cc in ((v.a, v.c), (v.b, not_(v.c))):
                o = self.content(arm, st)
                if isinstance(o, ArrC):
                    r = self.merge_arr(cc, c, o)
                    if r is None:
                        raise Unsupported("write through a gated reference")
                    self.write_content(arm, r, st, and_(cond, cc))
        else:
            raise Unsupported("write to %r" % (v,))

    def mark_shared(self, v, q):
        """the array handed out by a memoising decorator is also the one it keeps"""
        if isinstance(v, Ref):
            self.shared[v.id] = q
        elif isinstance(v, View):
            self.mark_shared(v.base, q)
        elif isinstance(v, Gt):
            self.mark_shared(v.a, q)
            self.mark_shared(v.b, q)
        elif isinstance(v, Tup):
            for x in v.items:
                self.mark_shared(x, q)

    def opaque_val(self, v, why):
        if isinstance(v, AV):
            return AV(ArrC(v.c.dims, opaque(why, "c"), v.c.k))
        if isinstance(v, S):
            return S(opaque(why, v.t.sort), v.k, v.np)
        return Un(why)

    def arr(self, v, st):
        """numeric array content of a value (scalars become 0-d)"""
        if isinstance(v, S):
            return ArrC((), v.t, v.k)
        if isinstance(v, bool) or isinstance(v, (int, float)):
            return ArrC((), const(v), "i")
        if isinstance(v, (Ref, View, Cell, AV)):
            c = self.content(v, st)
            if isinstance(c, ArrC):
                return c
            if isinstance(c, S):
                return ArrC((), c.t, c.k)
            if isinstance(c, ListC):
                return self.arr_from_segs(c.segs, st)
            raise Unsupported("not an array: %s" % type(c).__name__)
        if isinstance(v, Tup):
            return self.arr_from_segs([("i", x) for x in v.items], st)
        if isinstance(v, It):
            return self.arr_from_segs(v.segs, st)
        if isinstance(v, Partial) and v.fn == "mapkeys":
            return self.arr_from_segs(self.segments(v, st), st)
        if isinstance(v, Gt):
            a, b = self.arr(v.a, st), self.arr(v.b, st)
            r = self.merge_arr(v.c, a, b)
            if r is None:
                raise Unsupported("array of gated shape")
            return r
        if isinstance(v, Un):
            raise UnknownValue(v.why)
        raise Unsupported("array of %r" % (v,))

    def arr_from_segs(self, segs, st):
        segs = [s for s in segs]
        if not segs:
            return ArrC((Dom.range(ZERO, ZERO),), ZERO, "f")
        if all(s[0] == "i" for s in segs):
            parts = [self.arr(s[1], st).fresh() for s in segs]
            nd = len(parts[0].dims)
            if any(len(p.dims) != nd for p in parts):
                raise Unsupported("ragged array")
            d0 = Dom.range(ZERO, const(len(parts)))
            body = parts[-1].body
            k = parts[-1].k
            dims = parts[-1].dims
            for i in range(len(parts) - 2, -1, -1):
                p = parts[i]
                m = {}
                for a, b in zip(p.dims, dims):
                    if a != b:
                        raise Unsupported("array of differently shaped parts")
                    m.update(zip(a.vars, b.vars))
                body = ite(eq(d0.vars[0], const(i)), subst(p.body, m), body)
                k = kjoin(k, p.k)
            return ArrC((d0,) + tuple(dims), body, k)
        if len(segs) == 1 and segs[0][0] == "d":
            _, dom, val = segs[0]
            c = self.arr(val, st)
            d = dom.inst()
            m = dict(zip(dom.vars, d.vars))
            c2 = self.arr_subst(c, m).fresh()
            return ArrC((d,) + c2.dims, c2.body, c2.k)
        if len(segs) == 1 and segs[0][0] == "g":
            flat = flatten_segs(segs)
            if flat is None:
                raise Unsupported("array of a nested sequence")
            return self.arr_from_segs(flat, st)
        from . import npmodel
        runs = []
        for s in segs:
            if s[0] == "i" and runs and runs[-1][-1][0] == "i":
                runs[-1].append(s)
            else:
                runs.append([s])
        return npmodel.concatenate(self, [self.arr_from_segs(r, st) for r in runs], 0, st)

    def back(self, c, st, npflag=True):
        """value for array content"""
        if not c.dims:
            return S(c.body, c.k, npflag)
        return self.new(st, c)

    # -------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modframes:
            return self.modframes[name]
        st = self.base
        fid = next(_ids)
        self.modframes[name] = fid
        st.heap[fid] = FrameC({"__name__": St(name), "__file__": St("/%s.py" % name.replace(".", "/"))}, None, name)
        save = self.cur
        self.stack.append((name, "<module>"))
        tree = self.prog.trees[name]
        na, nt = len(self.aborts), len(self.taints)
        for s in tree.body:
            try:
                self.exec_block([s], st, fid)
            except (Unsupported, Dead) as e:
                pass
        del self.aborts[na:]
        self.stack.pop()
        self.cur = save
        return fid

    def import_module(self, dotted, st):
        if dotted in self.prog.trees:
            self.ensure(dotted, st)
            return ModV(dotted)
        return B(dotted)

    def ensure(self, name, st):
        if name not in self.modframes:
            before = set(self.base.heap)
            self.module(name)
        for i, c in self.base.heap.items():
            if i not in st.heap:
                st.heap[i] = c

    def modattr(self, name, attr, st):
        self.ensure(name, st)
        fr = st.heap[self.modframes[name]]
        if attr in fr.vars:
            return fr.vars[attr]
        if name + "." + attr in self.prog.trees:
            return self.import_module(name + "." + attr, st)
        raise KeyError(attr)

    # -------------------------------------------------------------- variables
    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            c = st.heap[f]
            if name in c.vars:
                v = c.vars[name]
                return v
            if c.parent is None and c.mod in self.modframes and self.modframes[c.mod] != f:
                f = self.modframes[c.mod]
            else:
                f = c.parent
        if name in EXC:
            return B("exc." + name)
        return B("builtins." + name)

    def setvar(self, name, v, st, fid):
        c = st.heap[fid]
        if "__global__" in c.vars and name in c.vars["__global__"]:
            fid = self.modframes[c.mod]
            c = st.heap[fid]
        elif "__nonlocal__" in c.vars and name in c.vars["__nonlocal__"]:
            f = c.parent
            while f is not None and name not in st.heap[f].vars:
                f = st.heap[f].parent
            if f is not None:
                fid = f
                c = st.heap[fid]
        d = dict(c.vars)
        d[name] = v
        st.heap[fid] = FrameC(d, c.parent, c.mod)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fid):
        """execute statements; returns Out"""
        out = Out(st)
        cur = st
        for idx, s in enumerate(stmts):
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("analysis budget exceeded")
            self.cur = (self.cur[0], self.cur[1], getattr(s, "lineno", 0)) if not self.stack else (self.stack[-1][0], self.stack[-1][1], getattr(s, "lineno", 0))
            try:
                o = self.exec_stmt(s, cur, fid)
            except Dead:
                out.st = None
                return out
            except UnknownValue as e:
                if not (isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and
                        all(isinstance(t, (ast.Name, ast.Tuple)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))):
                    self.taint("unknown value: %s" % e)
                self.havoc_stmt(s, cur, fid, "unknown value: %s" % e)
                o = None
            except Unsupported as e:
                self.taint("unsupported: %s" % e)
                self.havoc_stmt(s, cur, fid, str(e))
                o = None
            if o is None:
                continue
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            cur = o.st
            if cur is None:
                out.st = None
                return out
        out.st = cur
        return out

    def havoc_stmt(self, s, st, fid, why):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(n.id, Un(why), st, fid)
            if isinstance(n, (ast.Return,)):
                self.taint("unsupported statement containing return")
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                try:
                    r = self.ev(n.value, st, fid)
                    if isinstance(n, ast.Attribute) and isinstance(r, Ref) and isinstance(st.heap[r.id], ObjC):
                        o = st.heap[r.id]
                        a = dict(o.attrs)
                        a[n.attr] = Un(why)
                        st.heap[r.id] = ObjC(o.cls, a)
                    else:
                        c = self.content(r, st) if isinstance(r, (Ref, View, Cell)) else None
                        if isinstance(c, ArrC):
                            self.write_content(r, ArrC(c.dims, opaque(why, "c" if c.k == "c" else "r"), c.k), st)
                        elif isinstance(c, DictC):
                            st.heap[r.id] = DictC({k: Un(why) for k in c.items})
                except (Unsupported, Dead, UnknownValue, KeyError):
                    pass

    def exec_stmt(self, s, st, fid):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        try:
            return m(s, st, fid)
        except INTERNAL as e:
            if DEBUG:
                raise
            raise Unsupported("internal limit %s: %s" % (type(e).__name__, e))

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fid)

    def s_Pass(self, s, st, fid):
        return

    def s_Import(self, s, st, fid):
        for a in s.names:
            if a.asname:
                self.setvar(a.asname, self.import_module(a.name, st), st, fid)
            else:
                top = a.name.split(".")[0]
                if a.name in self.prog.trees:
                    self.import_module(a.name, st)
                self.setvar(top, self.import_module(top, st), st, fid)

    def s_ImportFrom(self, s, st, fid):
        mod = s.module or ""
        if s.level:
            base = st.heap[fid].mod
            f = self.prog.files.get(base, "")
            parts = base.split(".")
            if not f.endswith("__init__.py"):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        for a in s.names:
            if mod in self.prog.trees:
                if mod + "." + a.name in self.prog.trees:
                    v = self.import_module(mod + "." + a.name, st)
                else:
                    try:
                        v = self.modattr(mod, a.name, st)
                    except KeyError:
                        v = Un("import of unknown name %s" % a.name)
            else:
                v = self.npm.battr(self, mod, a.name, st)
            self.setvar(a.asname or a.name, v, st, fid)

    def s_Global(self, s, st, fid):
        c = st.heap[fid]
        d = dict(c.vars)
        d["__global__"] = set(d.get("__global__", ())) | set(s.names)
        st.heap[fid] = FrameC(d, c.parent, c.mod)

    def s_Nonlocal(self, s, st, fid):
        c = st.heap[fid]
        d = dict(c.vars)
        d["__nonlocal__"] = set(d.get("__nonlocal__", ())) | set(s.names)
        st.heap[fid] = FrameC(d, c.parent, c.mod)

    def s_FunctionDef(self, s, st, fid):
        f = self.make_fn(s, st, fid)
        self.setvar(s.name, f, st, fid)

    def make_fn(self, s, st, fid, cls=None):
        defaults = [self.ev(d, st, fid) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, st, fid) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        mod = st.heap[fid].mod
        deco = []
        for d in getattr(s, "decorator_list", []):
            try:
                node = d.func if isinstance(d, ast.Call) else d
                v = self.ev(node, st, fid)
                deco.append(v.name if isinstance(v, B) else (getattr(node, "attr", None) or getattr(node, "id", "?")))
                if isinstance(v, (FnV,)):
                    deco[-1] = v
            except (Unsupported, Dead):
                deco.append("?")
        parent = fid if self.modframes.get(mod) != fid else None
        return FnV(s, mod, parent if parent is not None else None, getattr(s, "name", "<lambda>"), cls, defaults, kwd, tuple(deco))

    def s_ClassDef(self, s, st, fid):
        bases = [self.ev(b, st, fid) for b in s.bases]
        attrs = {}
        cid = next(_ids)
        st.heap[cid] = FrameC({}, fid if self.modframes.get(st.heap[fid].mod) != fid else None, st.heap[fid].mod)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                # property setters share the name
                f = self.make_fn(x, st, cid, cls=s.name)
                f.fid = None if self.modframes.get(st.heap[fid].mod) == fid else fid
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in x.decorator_list):
                    attrs[x.name + ".setter"] = f
                else:
                    attrs[x.name] = f
                    self.setvar(x.name, f, st, cid)
            elif isinstance(x, ast.Assign):
                try:
                    v = self.ev(x.value, st, cid)
                except Unsupported as e:
                    v = Un(str(e))
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        attrs[t.id] = v
                        self.setvar(t.id, v, st, cid)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                attrs[x.target.id] = self.ev(x.value, st, cid)
        self.setvar(s.name, ClsV(s.name, st.heap[fid].mod, s, attrs, bases), st, fid)

    def s_Return(self, s, st, fid):
        v = self.ev(s.value, st, fid) if s.value is not None else NONE
        return Out(None, rets=[(st.br, v, st)])

    def s_Break(self, s, st, fid):
        return Out(None, brks=[st])

    def s_Continue(self, s, st, fid):
        return Out(None, conts=[st])

    def s_Raise(self, s, st, fid):
        kind = "Exception"
        if s.exc is not None:
            e = s.exc
            f = e.func if isinstance(e, ast.Call) else e
            if isinstance(f, ast.Name):
                kind = f.id
            elif isinstance(f, ast.Attribute):
                kind = f.attr
            if isinstance(e, ast.Call):
                for a in e.args:
                    try:
                        self.ev(a, st, fid)
                    except Unsupported:
                        pass
        self.abort(st, TRUE, kind)

    def s_Assert(self, s, st, fid):
        try:
            c = self.truth(self.ev(s.test, st, fid), st)
        except UnknownValue as e:
            c = not_(opaque("assert on unknown: %s" % e, "b"))
        self.abort(st, not_(c), "AssertionError")

    def s_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                c = st.heap[fid]
                d = dict(c.vars)
                d.pop(t.id, None)
                st.heap[fid] = FrameC(d, c.parent, c.mod)
            elif isinstance(t, ast.Subscript):
                v = self.ev(t.value, st, fid)
                k = self.ev(t.slice, st, fid)
                c = self.content(v, st)
                if isinstance(c, DictC):
                    d = dict(c.items)
                    d.pop(const_of(k), None)
                    st.heap[v.id] = DictC(d)
                elif isinstance(c, MapC) and isinstance(k, Tup):
                    a, b = [x.t for x in k.items]
                    st.heap[v.id] = MapC(c.l, c.m, and_(c.has, not_(and_(eq(c.l, a), eq(c.m, b)))), c.val, c.alias, c.ph)
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def s_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts, st)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            self.setattr_(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev_index(t.slice, st, fid)
            self.setitem(o, k, v, st)
        else:
            raise Unsupported("assignment target")

    def rand_site(self):
        self.nrand += 1
        return "r%d" % self.nrand

    def unpack(self, v, elts, st):
        n = len(elts)
        if isinstance(v, Partial) and v.fn == "unzip":
            d, val = v.args
            self.abort(st, eq(d.size(), ZERO), "ValueError")
            if len(val.items) != n:
                self.abort(st, TRUE, "ValueError")
            return [It([("d", d, x)]) for x in val.items]
        if isinstance(v, Partial) and v.fn == "tokslice":
            s, a, b = v.args
            if b - a != n:
                raise Unsupported("unpacking of a token slice")
            self.abort(st, lt(mk("ntok", (s,), "i"), const(b)), "ValueError")
            return [St(mk("tok", (s, const(i)), "s")) for i in range(a, b)]
        if isinstance(v, Partial) and v.fn == "strtokens":
            s = v.args[0]
            if any(isinstance(e, ast.Starred) for e in elts):
                raise Unsupported("starred tokens")
            self.abort(st, not_(eq(mk("ntok", (s,), "i"), const(n))), "ValueError")
            return [St(mk("tok", (s, const(i)), "s")) for i in range(n)]
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.concrete_items(v, st)
        if items is None:
            if isinstance(v, Un):
                return [Un(v.why)] * n
            raise Unsupported("unpacking of symbolic sequence")
        if star:
            i = star[0]
            rest = len(items) - (n - 1)
            if rest < 0:
                self.abort(st, TRUE, "ValueError")
            mid = self.lst(st, items[i:i + rest])
            return items[:i] + [mid] + items[i + rest:]
        if len(items) != n:
            self.abort(st, TRUE, "ValueError")
        return items

    def concrete_items(self, v, st):
        """list of values when the iterable has constant length, else None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Gt):
            a, b = self.concrete_items(v.a, st), self.concrete_items(v.b, st)
            if a is None or b is None or len(a) != len(b):
                return None
            return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
        try:
            segs = self.segments(v, st)
        except Unsupported:
            return None
        if all(s[0] == "i" for s in segs):
            return [s[1] for s in segs]
        return None

    def setattr_(self, o, attr, v, st):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjC):
            c = st.heap[o.id]
            if isinstance(c.cls, ClsV):
                ps = c.cls.lookup(attr + ".setter")
                if ps is not None:
                    self.call(ps, [o, v], {}, st)
                    return
            a = dict(c.attrs)
            a[attr] = v
            st.heap[o.id] = ObjC(c.cls, a)
        elif isinstance(o, ExtO):
            self.effect(st, o.path + "." + attr + "=", [o, v], {})
        elif isinstance(o, Gt):
            for arm, c in ((o.a, o.c), (o.b, not_(o.c))):
                s2 = st.fork()
                self.setattr_(arm, attr, v, s2)
                st.take(self.merge(c, s2, st.fork()))
        elif isinstance(o, ModV):
            f = self.modframes[o.name]
            c = st.heap[f]
            d = dict(c.vars)
            d[attr] = v
            st.heap[f] = FrameC(d, c.parent, c.mod)
        elif isinstance(o, Un):
            self.taint("attribute store on unknown object")
        else:
            raise Unsupported("attribute store on %r" % (o,))

    def setitem(self, o, k, v, st):
        if isinstance(o, Gt):
            for arm, c in ((o.a, o.c), (o.b, not_(o.c))):
                s2 = st.fork()
                if c is not FALSE:
                    self.setitem(arm, k, v, s2)
                    st.take(self.merge(c, s2, st.fork()))
            return
        c = self.content(o, st) if isinstance(o, (Ref, View, Cell)) else None
        if isinstance(c, ArrC):
            self.npm.setitem(self, o, c, k, v, st)
            return
        if isinstance(c, (DictC, MapC)):
            if isinstance(c, DictC) and is_const(k) and not (isinstance(k, Tup) and len(k.items) == 2 and not c.items and all(isinstance(x, S) and x.k == "i" for x in k.items)):
                d = dict(c.items)
                d[const_of(k)] = v
                st.heap[o.id] = DictC(d)
                return
            if isinstance(k, Tup) and len(k.items) == 2 and all(isinstance(x, S) for x in k.items):
                self.map_store(o, c, k.items[0].t, k.items[1].t, v, st)
                return
            if isinstance(c, DictC) and isinstance(k, (S, St)):
                if self.unrollable:
                    from .loops import NeedUnroll
                    raise NeedUnroll()
                st.heap[o.id] = DictC({kk: Un("symbolic key store") for kk in c.items})
                self.taint("store under a symbolic dictionary key")
                return
            raise Unsupported("dictionary key %r" % (k,))
        if isinstance(c, ListC):
            if c.concrete() and isinstance(k, S):
                vals = c.values()
                if isc(k.t):
                    i = int(cval(k.t))
                    if i < 0:
                        i += len(vals)
                    if not 0 <= i < len(vals):
                        self.abort(st, TRUE, "IndexError")
                    vals[i] = v
                    st.heap[o.id] = ListC([("i", x) for x in vals])
                else:
                    st.heap[o.id] = ListC([("i", self.merge_val(eq(k.t, const(i)), v, x)) for i, x in enumerate(vals)])
                return
            if len(c.segs) == 1 and c.segs[0][0] == "d" and c.segs[0][1].simple() and isinstance(k, S):
                _, d, val = c.segs[0]
                d2 = d.inst()
                val = self.val_subst(val, dict(zip(d.vars, d2.vars)))
                st.heap[o.id] = ListC([("d", d2, self.merge_val(eq(k.t, d2.vars[0]), self.freeze(v, st, 0), val))])
                return
            raise Unsupported("list item store")
        if isinstance(o, ExtO):
            self.effect(st, o.path + "[]=", [o, k, v], {})
            return
        if isinstance(o, Ref) and isinstance(c, ObjC):
            f = c.cls.lookup("__setitem__") if isinstance(c.cls, ClsV) else None
            if f is not None:
                self.call(f, [o, k, v], {}, st)
                return
        if isinstance(o, Un):
            self.taint("item store on unknown object")
            return
        if o is NONE or isinstance(o, (S, St, Tup, FnV)):
            self.abort(st, TRUE, "TypeError")
        raise Unsupported("item store on %r" % (o,))

    def map_store(self, o, c, l, m, v, st):
        if isinstance(c, DictC):
            if c.items:
                # constant tuple keys become conditions
                lv, mv = fresh("i", name="l"), fresh("i", name="m")
                mc = MapC(lv, mv, FALSE, None)
                for kk, vv in c.items.items():
                    if not (isinstance(kk, tuple) and len(kk) == 2):
                        raise Unsupported("mixed dictionary keys")
                    mc = self._map_put(mc, const(kk[0]), const(kk[1]), vv, st)
                c = mc
            else:
                lv, mv = fresh("i", name="l"), fresh("i", name="m")
                c = MapC(lv, mv, FALSE, None)
        st.heap[o.id] = self._map_put(c, l, m, v, st)

    def _map_put(self, c, l, m, v, st):
        here = and_(eq(c.l, l), eq(c.m, m))
        alias = c.alias
        if isinstance(v, (Ref, View, Cell)):
            x = self.content(v, st)
            alias = alias | self.alias_ids(v)
            if isinstance(x, ArrC):
                nv = AV(x)
            else:
                raise Unsupported("coefficient entry that is not an array")
        elif isinstance(v, (S, AV, Un)):
            nv = v
        elif isinstance(v, Gt):
            nv = AV(self.arr(v, st))
        else:
            raise Unsupported("coefficient entry %r" % (v,))
        if c.val is None or c.has is FALSE:
            val = nv
        elif isinstance(c.val, AV) and isinstance(nv, AV):
            r = self.merge_arr(here, nv.c, c.val.c)
            if r is None:
                r = self.merge_same(here, nv.c, c.val.c, st)
            if r is None:
                r = ArrC(c.val.c.dims, opaque("entries of different shapes", "c"), "c")
            val = AV(r)
        else:
            val = self.merge_val(here, nv, c.val)
        return MapC(c.l, c.m, or_(c.has, here), val, alias, c.ph)

    def alias_ids(self, v):
        if isinstance(v, Ref):
            return frozenset((v.id,))
        if isinstance(v, Cell):
            return frozenset((v.mref.id,))
        if isinstance(v, View):
            return self.alias_ids(v.base)
        if isinstance(v, Gt):
            return self.alias_ids(v.a) | self.alias_ids(v.b)
        return frozenset()

    def s_AugAssign(self, s, st, fid):
        t = s.target
        opn = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fid)
            r = self.inplace(opn, cur, self.ev(s.value, st, fid), st)
            self.setvar(t.id, r, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            cur = self.getattr_(o, t.attr, st)
            r = self.inplace(opn, cur, self.ev(s.value, st, fid), st)
            self.setattr_(o, t.attr, r, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev_index(t.slice, st, fid)
            cur = self.getitem(o, k, st)
            rhs = self.ev(s.value, st, fid)
            r = self.inplace(opn, cur, rhs, st)
            if r is cur and isinstance(cur, (View, Cell)):
                return          # written through
            self.setitem(o, k, r, st)
        else:
            raise Unsupported("augmented target")

    def inplace(self, opn, cur, v, st):
        if isinstance(cur, Gt) and isinstance(cur.a, (S, St, Tup)) and isinstance(cur.b, (S, St, Tup)):
            return self.binop(opn, cur, v, st)
        if isinstance(cur, (Ref, View, Cell)):
            c = self.content(cur, st)
            if isinstance(c, ArrC):
                r = self.arr(self.binop(opn, cur, v, st), st)
                if "bifc".index(r.k) > "bifc".index(c.k):
                    self.abort(st, TRUE, "TypeError")
                r2 = self.npm.broadcast_to(self, r, c.dims, st)
                self.write_content(cur, ArrC(r2.dims, r2.body, c.k), st)
                return cur
            if isinstance(c, ListC) and opn == "Add":
                self.list_extend(cur, v, st)
                return cur
            if isinstance(c, (SetC, DictC)) and opn == "BitOr":
                r = self.binop(opn, cur, v, st)
                st.heap[cur.id] = self.content(r, st)
                return cur
            if isinstance(c, ObjC) and isinstance(c.cls, ClsV):
                m = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__", "Pow": "__ipow__"}.get(opn)
                f = c.cls.lookup(m) if m else None
                if f is not None:
                    return self.call(f, [cur, v], {}, st)
        return self.binop(opn, cur, v, st)

    def list_extend(self, ref, v, st):
        c = st.heap[ref.id]
        st.heap[ref.id] = ListC(c.segs + tuple(self.segments(v, st)))

    # -------------------------------------------------------------- control flow
    def s_If(self, s, st, fid):
        cv = self.ev(s.test, st, fid)
        try:
            c = self.truth(cv, st)
        except UnknownValue as e:
            c = opaque("branch on unknown: %s" % e, "b")
        c = simp_under(c, st.pc)
        if c is TRUE:
            return self.exec_block(s.body, st, fid)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fid)
        a, b = st.fork(), st.fork()
        a.pc, a.br = and_(a.pc, c), and_(a.br, c)
        b.pc, b.br = and_(b.pc, not_(c)), and_(b.br, not_(c))
        oa = self.exec_block(s.body, a, fid) if a.pc is not FALSE else Out(None)
        ob = self.exec_block(s.orelse, b, fid) if b.pc is not FALSE else Out(None)
        n = self.merge(c, oa.st, ob.st)
        return Out(n, oa.rets + ob.rets, oa.brks + ob.brks, oa.conts + ob.conts)

    def s_With(self, s, st, fid):
        return self.with_items(s.items, s, st, fid)

    def with_items(self, items, s, st, fid):
        if not items:
            return self.exec_block(s.body, st, fid)
        it = items[0]
        mgr = self.ev(it.context_expr, st, fid)
        if isinstance(mgr, Partial) and mgr.fn == "contextmanager":
            fnv, args, kw = mgr.args
            box = {}

            def body(val, st2):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val if val is not None else NONE, st2, fid)
                o = self.with_items(items[1:], s, st2, fid)
                box["out"] = o
                if o.st is None:
                    raise Dead()
                st2.take(o.st)
            self.yields.append(body)
            try:
                self.call_fn(fnv, args, kw, st, generator=False)
            finally:
                self.yields.pop()
            o = box.get("out")
            return Out(st, o.rets if o else [], o.brks if o else [], o.conts if o else [])
        entered = mgr
        ex = None
        if isinstance(mgr, Ref) and isinstance(st.heap[mgr.id], ObjC) and isinstance(st.heap[mgr.id].cls, ClsV):
            cls = st.heap[mgr.id].cls
            f = cls.lookup("__enter__")
            ex = cls.lookup("__exit__")
            if f is not None:
                entered = self.call(f, [mgr], {}, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, entered, st, fid)
        if isinstance(mgr, ExtO):
            self.effect(st, "enter", [mgr], {})
        o = self.with_items(items[1:], s, st, fid)
        if o.st is not None:
            if ex is not None:
                r = self.call(ex, [mgr, NONE, NONE, NONE], {}, o.st)
            if isinstance(mgr, ExtO):
                self.effect(o.st, "exit", [mgr], {})
        if ex is not None:
            # a context manager that returns a true value swallows exceptions
            self.check_exit(ex)
        return o

    def check_exit(self, ex):
        pass

    def s_Try(self, s, st, fid):
        pre = st.fork()
        n0 = len(self.aborts)
        self.trying += bool(s.handlers)
        try:
            o = self.exec_block(s.body, st, fid)
        finally:
            self.trying -= bool(s.handlers)
        if o.st is not None and s.orelse:
            o2 = self.exec_block(s.orelse, o.st, fid)
            o = Out(o2.st, o.rets + o2.rets, o.brks + o2.brks, o.conts + o2.conts)
        mine = self.aborts[n0:]
        del self.aborts[n0:]
        rest = []
        res = o
        handlers = []
        for h in s.handlers:
            names = None
            if h.type is not None:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = {t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in ts}
            handlers.append((names, h))
        caught = {}
        for c, kind, w in mine:
            for i, (names, h) in enumerate(handlers):
                if names is None or kind in names or "Exception" in names or "BaseException" in names or \
                        set(EXC_SUP.get(kind, ())) & names:
                    caught.setdefault(i, []).append((c, kind, w))
                    break
            else:
                rest.append((c, kind, w))
        self.aborts.extend(rest)
        stored = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for i, lst in caught.items():
            hc = or_(*[c for c, _, _ in lst])
            if hc is FALSE:
                continue
            b = None
            for e in lst:
                sn = self.snaps.get(id(e))
                if sn is not None and sn[0] is e:
                    x = State(dict(sn[1]), pre.pc, pre.br)
                else:
                    x = pre.fork()
                    for nme in stored:
                        self.setvar(nme, Un("value after exception"), x, fid)
                b = x if b is None else self.merge(e[0], x, b)
            b.pc, b.br = and_(pre.pc, hc), and_(pre.br, hc)
            if handlers[i][1].name:
                self.setvar(handlers[i][1].name, Un("exception"), b, fid)
            oh = self.exec_block(handlers[i][1].body, b, fid)
            # normal state of the body is reached under not hc
            rets = [(and_(r[0], not_(hc)), r[1], r[2]) for r in res.rets] + oh.rets
            n = self.merge(hc, oh.st, res.st)
            if res.st is not None and oh.st is None:
                n.br = and_(n.br, not_(hc))
            if oh.conts and res.st is not None:
                pass
            res = Out(n, rets, res.brks + oh.brks, res.conts + oh.conts)
        if s.finalbody and res.st is not None:
            of = self.exec_block(s.finalbody, res.st, fid)
            res = Out(of.st, res.rets + of.rets, res.brks + of.brks, res.conts + of.conts)
        return res

    def s_For(self, s, st, fid):
        itv = self.ev(s.iter, st, fid)
        if isinstance(itv, Un):
            raise UnknownValue("loop over " + itv.why)
        segs = self.segments(itv, st)

        def step(v, st2):
            self.assign(s.target, v, st2, fid)
            return self.exec_block(s.body, st2, fid)
        o = self.run_loop(segs, step, st)
        if s.orelse and o.st is not None:
            if o.brks:
                raise Unsupported("for-else with break")
            o2 = self.exec_block(s.orelse, o.st, fid)
            return Out(o2.st, o.rets + o2.rets, o2.brks, o2.conts)
        return Out(o.st, o.rets)

    def run_loop(self, segs, step, st):
        """execute step for every element of the segments; returns Out (brks are absorbed)"""
        rets = []
        broken = []
        cur = st
        for seg in segs:
            if cur is None:
                break
            if seg[0] == "i":
                try:
                    o = step(self.thaw(seg[1], cur), cur)
                except Dead:
                    cur = None
                    break
            elif seg[0] in ("d", "g"):
                o = self.summarise(seg, step, cur)
            else:
                raise Unsupported("iteration over a partial list")
            rets += o.rets
            nxt = o.st
            for cs in o.conts:
                nxt = self.merge(cs.br, cs, nxt) if nxt is not None else cs
            broken += o.brks
            cur = nxt
        for b in broken:
            if cur is None:
                cur = b
            else:
                cur = self.merge(b.br, b, cur)
        return Out(cur, rets, broken)

    def s_While(self, s, st, fid):
        # constant-trip loops unroll; counter loops become range reductions
        first = State(dict(st.heap), st.pc, st.br)
        nab, ntaint = len(self.aborts), len(self.taints)
        cur = st
        rets, broken = [], []
        n = 0
        while cur is not None:
            c = simp_under(self.truth(self.ev(s.test, cur, fid), cur), cur.pc)
            if c is FALSE:
                break
            if c is not TRUE:
                if n:   # the first rounds were certain only because of the starting value: summarise from the start
                    del self.aborts[nab:]
                    del self.taints[ntaint:]
                    cur = first
                return self.counter_while(s, cur, fid)
            n += 1
            if n > 64:
                raise Unsupported("while loop does not end within 64 rounds")
            o = self.exec_block(s.body, cur, fid)
            rets += o.rets
            nxt = o.st
            for cs in o.conts:
                nxt = self.merge(cs.br, cs, nxt) if nxt is not None else cs
            broken += o.brks
            cur = nxt
        for b in broken:
            cur = b if cur is None else self.merge(b.br, b, cur)
        return Out(cur, rets)

    def counter_while(self, s, st, fid):
        from .loops import counter_loop
        return counter_loop(self, s, st, fid)

    def summarise(self, seg, step, st):
        from .loops import summarise
        return summarise(self, seg, step, st)

    # -------------------------------------------------------------- iteration
    def segments(self, v, st):
        if isinstance(v, Tup):
            return [("i", x) for x in v.items]
        if isinstance(v, It):
            return list(v.segs)
        if isinstance(v, Gt):
            a, b = self.segments(v.a, st), self.segments(v.b, st)
            if len(a) == len(b) and all(x[0] == y[0] == "i" for x, y in zip(a, b)):
                return [("i", self.merge_val(v.c, x[1], y[1])) for x, y in zip(a, b)]
            return [cond_seg(v.c, s) for s in a] + [cond_seg(not_(v.c), s) for s in b]
        if isinstance(v, St):
            c = v.const()
            if c is not None:
                return [("i", St(ch)) for ch in c]
            raise Unsupported("iteration over a symbolic string")
        if isinstance(v, (Ref, View, Cell, AV)):
            c = self.content(v, st)
            if isinstance(c, ListC):
                return list(c.segs)
            if isinstance(c, ArrC):
                if not c.dims:
                    self.abort(st, TRUE, "TypeError")
                d = c.dims[0]
                d2 = d.inst()
                rest = [x.inst() for x in c.dims[1:]]
                body = c.at([d2.vars] + [r.vars for r in rest])
                val = S(body, c.k, True) if not rest else AV(ArrC(rest, body, c.k))
                if d.simple() and isc(d.his[0]) and cval(d.his[0]) <= 8:
                    out = []
                    for i in range(int(cval(d.his[0]))):
                        m = {d2.vars[0]: const(i)}
                        if not rest:
                            out.append(("i", S(subst(body, m), c.k, True)))
                        elif isinstance(v, Ref):
                            out.append(("i", self.npm.getitem(self, v, c, I_(i), st)))
                        else:
                            out.append(("i", self.val_subst(val, m)))
                    return out
                return [("d", d2, val)]
            if isinstance(c, DictC):
                return [("i", pyval(k)) for k in c.items]
            if isinstance(c, MapC):
                d = Dom("u", (fresh("i", name="l"), fresh("i", name="m")), (), ())
                d.cond = subst(c.has, {c.l: d.vars[0], c.m: d.vars[1]})
                return [("d", d, Tup([S(d.vars[0], "i"), S(d.vars[1], "i")]))]
            if isinstance(c, SetC):
                d = Dom("u", (fresh("i", name="l"), fresh("i", name="m")), (), ())
                d.cond = subst(c.has, {c.l: d.vars[0], c.m: d.vars[1]})
                return [("d", d, Tup([S(d.vars[0], "i"), S(d.vars[1], "i")]))]
            if isinstance(c, ObjC) and c.cls == "file":
                return self.segments(self.npm.call(self, "obj.__iter__", [v], {}, st), st)
            if isinstance(c, ObjC) and isinstance(c.cls, ClsV):
                f = c.cls.lookup("__iter__")
                if f is not None:
                    return self.segments(self.call(f, [v], {}, st), st)
        if isinstance(v, Partial) and v.fn == "mapkeys":
            return self.segments(v.args[0], st)
        if isinstance(v, Partial) and v.fn == "unzip":
            d, val = v.args
            return [("i", It([("d", d, x)])) for x in val.items]
        if isinstance(v, ExtO):
            raise Unsupported("iteration over external object")
        if isinstance(v, Un):
            raise UnknownValue(v.why)
        if v is NONE or isinstance(v, (S, FnV)):
            self.abort(st, TRUE, "TypeError")
        raise Unsupported("iteration over %r" % (v,))

    def _raise(self, e):
        raise e

    # -------------------------------------------------------------- truth
    def truth(self, v, st):
        if isinstance(v, S):
            return tm._bool(v.t)
        if isinstance(v, St):
            return tm._bool(v.t)
        if v is NONE:
            return FALSE
        if isinstance(v, Tup):
            return const(bool(v.items))
        if isinstance(v, Gt):
            return or_(and_(v.c, self.truth(v.a, st)), and_(not_(v.c), self.truth(v.b, st)))
        if isinstance(v, (Ref, View, Cell, AV)):
            c = self.content(v, st)
            if isinstance(c, ListC):
                n = self.seglen(c.segs)
                return lt(ZERO, n)
            if isinstance(c, ArrC):
                if not c.dims:
                    return tm._bool(c.body)
                if all(d.simple() and d.his[0] is ONE for d in c.dims):
                    return tm._bool(c.at([(ZERO,) for _ in c.dims]))
                self.abort(st, TRUE, "ValueError")
            if isinstance(c, DictC):
                return const(bool(c.items))
            if isinstance(c, MapC):
                d = Dom("k", (c.l, c.m), (), (), c.has)
                return tany(d, TRUE)
            if isinstance(c, SetC):
                return tany(Dom("k", (c.l, c.m), (), (), c.has), TRUE)
            if isinstance(c, ObjC):
                if isinstance(c.cls, ClsV):
                    for n in ("__bool__", "__len__"):
                        f = c.cls.lookup(n)
                        if f is not None:
                            return self.truth(self.call(f, [v], {}, st), st)
                return TRUE
        if isinstance(v, It):
            return TRUE
        if isinstance(v, ExtO):
            return mk("truthx", (v.path, ) + tuple(k for k in (v.key or ()) if isinstance(k, T)), "b") if v.path.startswith("args.") or "parse_args" in v.path else TRUE
        if isinstance(v, (FnV, BM, B, ClsV, ModV, Partial, Ufn)):
            return TRUE
        if isinstance(v, Un):
            raise UnknownValue(v.why)
        raise Unsupported("truth of %r" % (v,))

    def seglen(self, segs):
        n = ZERO
        for s in segs:
            n = add(n, seg_count(s))
        return n

    # -------------------------------------------------------------- calls
    def effect(self, st, what, args, kw):
        e = Eff(what, args, kw, self.cur[2], "%s:%s" % (self.cur[0], self.cur[1]))
        st.heap[EFF] = ListC(st.heap[EFF].segs + (("i", e),))
        return e

    def call(self, f, args, kw, st):
        if isinstance(f, FnV):
            return self.call_fnv(f, args, kw, st)
        if isinstance(f, BM):
            if isinstance(f.fn, FnV):
                return self.call_fnv(f.fn, [f.self] + list(args), kw, st)
            return self.npm.call(self, f.fn.name, [f.self] + list(args), kw, st, method=True)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, B):
            return self.npm.call(self, f.name, list(args), dict(kw), st)
        if isinstance(f, Partial):
            if f.fn == "vectorize":
                return self.npm.vectorize_call(self, f.args[0], list(args), kw, st)
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, st)
        if isinstance(f, Gt):
            a, b = st.fork(), st.fork()
            a.pc, b.pc = and_(a.pc, f.c), and_(b.pc, not_(f.c))
            va = vb = None
            try:
                va = self.call(f.a, args, kw, a)
            except Dead:
                a = None
            try:
                vb = self.call(f.b, args, kw, b)
            except Dead:
                b = None
            if a is None and b is None:
                raise Dead()
            st.take(self.merge(f.c, a, b))
            return va if b is None else vb if a is None else self.merge_val(f.c, va, vb)
        if isinstance(f, Ufn):
            return self.npm.ufn_call(self, f, args, kw, st)
        if isinstance(f, ExtO):
            return self.npm.ext_call(self, f, None, list(args), dict(kw), st)
        if isinstance(f, Ref) and isinstance(st.heap[f.id], ObjC) and isinstance(st.heap[f.id].cls, ClsV):
            m = st.heap[f.id].cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw, st)
        if isinstance(f, Un):
            return Un("result of " + f.why)
        if f is NONE or isinstance(f, (S, St, Tup)):
            self.abort(st, TRUE, "TypeError")
        raise Unsupported("call of %r" % (f,))

    def call_fnv(self, f, args, kw, st):
        q = f.mod + "." + (f.cls + "." if f.cls else "") + f.name
        if q in self.hooks:
            return self.hooks[q](self, args, kw, st)
        for d in f.deco:
            if isinstance(d, FnV):
                raise Unsupported("package decorator on %s" % f.name)
            if d in ("numpy.vectorize",):
                g = FnV(f.node, f.mod, f.fid, f.name, f.cls, f.defaults, f.kwdefaults, ())
                return self.npm.vectorize_call(self, g, list(args), kw, st)
            if d == "contextlib.contextmanager":
                return Partial("contextmanager", (f, args, kw), {})
            if d in ("functools.lru_cache", "functools.cache"):
                r = self.call_fn(f, args, kw, st)
                self.mark_shared(r, q)
                return r
        return self.call_fn(f, args, kw, st)

    def bind_args(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        pos = list(args)
        for n, v in zip(names, pos):
            vars[n] = v
        extra = pos[len(names):]
        if a.vararg is not None:
            vars[a.vararg.arg] = Tup(extra)
        elif extra:
            self.abort(st, TRUE, "TypeError")
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in vars:
                    self.abort(st, TRUE, "TypeError")
                vars[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in vars:
                vars[n] = d
        for x in a.kwonlyargs:
            if x.arg not in vars:
                if x.arg in f.kwdefaults:
                    vars[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.abort(st, TRUE, "TypeError")
        for n in names:
            if n not in vars:
                self.abort(st, TRUE, "TypeError")
        if a.kwarg is not None:
            r = self.new(st, DictC(kw))
            vars[a.kwarg.arg] = r
        elif kw:
            self.abort(st, TRUE, "TypeError")
        return vars

    def call_fn(self, f, args, kw, st, generator=None):
        if len(self.stack) > 60 or sum(1 for s in self.stack if s[2:] == (id(f.node),)) > 3:
            raise Unsupported("recursion")
        self.ensure(f.mod, st)
        self.visited.add(f.mod + "." + (f.cls + "." if f.cls else "") + f.name)
        save = self.cur
        vars = self.bind_args(f, args, kw, st)
        fid = next(_ids)
        st.heap[fid] = FrameC(vars, f.fid, f.mod)
        self.stack.append((f.mod, f.name, id(f.node)))
        br0 = st.br
        st.br = TRUE
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st, fid)
                st.br = br0
                return v
            isgen = is_generator(f.node) if generator is None else generator
            if isgen:
                yl = self.new(st, ListC(()))
                d = dict(st.heap[fid].vars)
                d["__yield__"] = yl
                st.heap[fid] = FrameC(d, f.fid, f.mod)
            o = self.exec_block(f.node.body, st, fid)
            rets = list(o.rets)
            if o.st is not None:
                rets.append((None, NONE, o.st))
            if not rets:
                raise Dead()
            c, v, s = rets[-1]
            for c2, v2, s2 in reversed(rets[:-1]):
                v = v2 if v is v2 else self.merge_val(c2, v2, v)
                s = self.merge(c2, s2, s)
            st.take(s)
            st.br = br0
            if isgen:
                segs = st.heap[yl.id].segs
                return It(segs)
            return v
        finally:
            self.stack.pop()
            self.cur = save
            st.br = br0

    def instantiate(self, cls, args, kw, st):
        if any(isinstance(b, B) and b.name.startswith("exc.") for b in cls.bases):
            return Un("exception object")
        q = cls.mod + "." + cls.name
        if q in self.hooks:
            return self.hooks[q](self, args, kw, st)
        r = self.new(st, ObjC(cls, {}))
        init = cls.lookup("__init__")
        if init is not None:
            self.call(init, [r] + list(args), kw, st)
        elif "dataclass" in str(getattr(cls.node, "decorator_list", "")):
            raise Unsupported("dataclass")
        return r

    # -------------------------------------------------------------- attributes / items
    def getattr_(self, v, name, st):
        if isinstance(v, ModV):
            try:
                return self.modattr(v.name, name, st)
            except KeyError:
                return Un("module attribute %s.%s" % (v.name, name))
        if isinstance(v, B):
            return self.npm.battr(self, v.name, name, st)
        if isinstance(v, Gt):
            a, b = self.getattr_(v.a, name, st), self.getattr_(v.b, name, st)
            return self.merge_val(v.c, a, b)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ObjC):
                if name in c.attrs:
                    return c.attrs[name]
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    return self.new(st, DictC(c.attrs))
                if isinstance(c.cls, ClsV):
                    f = c.cls.lookup(name)
                    if f is not None:
                        return self.bind_method(f, v, c.cls, st)
                    self.abort(st, TRUE, "AttributeError")
                return BM(v, B("obj." + name))
        if isinstance(v, ClsV):
            f = v.lookup(name)
            if f is not None:
                if isinstance(f, FnV):
                    if "builtins.classmethod" in f.deco:
                        g = FnV(f.node, f.mod, f.fid, f.name, f.cls, f.defaults, f.kwdefaults, tuple(d for d in f.deco if d != "builtins.classmethod"))
                        return BM(v, g)
                    if "builtins.staticmethod" in f.deco:
                        return FnV(f.node, f.mod, f.fid, f.name, f.cls, f.defaults, f.kwdefaults, tuple(d for d in f.deco if d != "builtins.staticmethod"))
                return f
            if name == "__name__":
                return St(v.name)
            return Un("class attribute %s" % name)
        if isinstance(v, (FnV, BM)) and name == "__name__":
            f = v.fn if isinstance(v, BM) else v
            return St(getattr(f, "name", "?"))
        if isinstance(v, (FnV,)):
            return BM(v, B("function." + name))
        return self.npm.getattr_(self, v, name, st)

    def bind_method(self, f, v, cls, st):
        if isinstance(f, FnV):
            d = f.deco
            strip = lambda x: FnV(f.node, f.mod, f.fid, f.name, f.cls, f.defaults, f.kwdefaults, tuple(y for y in d if y != x))
            if "builtins.property" in d:
                return self.call(strip("builtins.property"), [v], {}, st)
            if "functools.cached_property" in d:
                r = self.call(strip("functools.cached_property"), [v], {}, st)
                self.setattr_raw(v, f.name, r, st)
                return r
            if "builtins.staticmethod" in d:
                return strip("builtins.staticmethod")
            if "builtins.classmethod" in d:
                return BM(cls, strip("builtins.classmethod"))
            return BM(v, f)
        return f

    def setattr_raw(self, o, attr, v, st):
        c = st.heap[o.id]
        a = dict(c.attrs)
        a[attr] = v
        st.heap[o.id] = ObjC(c.cls, a)

    def getitem(self, v, k, st):
        if isinstance(v, Gt):
            a, b = st.fork(), st.fork()
            a.pc, b.pc = and_(a.pc, v.c), and_(b.pc, not_(v.c))
            va = vb = None
            try:
                va = self.getitem(v.a, k, a)
            except Dead:
                a = None
            try:
                vb = self.getitem(v.b, k, b)
            except Dead:
                b = None
            if a is None and b is None:
                raise Dead()
            st.take(self.merge(v.c, a, b))
            return va if b is None else vb if a is None else self.merge_val(v.c, va, vb)
        if isinstance(k, Gt) and not isinstance(k.a, S):
            return self.merge_val(k.c, self.getitem(v, k.a, st), self.getitem(v, k.b, st))
        return self.npm.getitem_any(self, v, k, st)

    # -------------------------------------------------------------- expressions
    def ev(self, e, st, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        v = e.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELL
        if isinstance(v, bool):
            return S(const(v), "b")
        if isinstance(v, int):
            if self.widen is not None and v >= 100 and self.cur[0].split(".")[-1] == self.widen:
                # a resolution written as a literal: the argument holds for every resolution
                n = "literal%d" % v
                if n not in SIGS:
                    declare(n, "i", nonneg=True, dist=lambda r, idx, J: r.randint(0, 2))
                return S(add(const(2), atom(n)), "i")
            return S(const(v), "i")
        if isinstance(v, float):
            return S(const(v), "f")
        if isinstance(v, complex):
            return S(const(v), "c")
        if isinstance(v, str):
            return St(v)
        return Un("constant %r" % (v,))

    def e_Name(self, e, st, fid):
        v = self.lookup(e.id, st, fid)
        if isinstance(v, B) and v.name.startswith("builtins.") and not self.npm.known_builtin(v.name[9:]):
            import builtins
            if hasattr(builtins, e.id):
                raise Unsupported("builtin %s" % e.id)
            self.abort(st, TRUE, "NameError")
        if isinstance(v, Gt):
            for c, arm, other in ((v.c, v.a, v.b), (not_(v.c), v.b, v.a)):
                if isinstance(other, Un) and other.why.startswith("undefined"):
                    s = simp_under(c, st.pc)
                    if s is TRUE:
                        return arm
            s = simp_under(v.c, st.pc)
            if s is TRUE:
                return v.a
            if s is FALSE:
                return v.b
        return v

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.assign(e.target, v, st, fid)
        return v

    def e_Tuple(self, e, st, fid):
        return Tup(self.ev_elts(e.elts, st, fid))

    def ev_elts(self, elts, st, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.concrete_items(self.ev(x.value, st, fid), st)
                if items is None:
                    raise Unsupported("star of symbolic sequence")
                out += items
            else:
                out.append(self.ev(x, st, fid))
        return out

    def e_List(self, e, st, fid):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    segs += self.segments(self.ev(x.value, st, fid), st)
                else:
                    segs.append(("i", self.ev(x, st, fid)))
            return self.new(st, ListC(segs))
        return self.lst(st, self.ev_elts(e.elts, st, fid))

    def e_Set(self, e, st, fid):
        return self.lst(st, self.ev_elts(e.elts, st, fid))

    def e_Dict(self, e, st, fid):
        r = self.new(st, DictC({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.content(self.ev(v, st, fid), st)
                if not isinstance(c, DictC):
                    raise Unsupported("dict spread")
                st.heap[r.id] = DictC({**st.heap[r.id].items, **c.items})
            else:
                self.setitem(r, self.ev(k, st, fid), self.ev(v, st, fid), st)
        return r

    def e_Lambda(self, e, st, fid):
        return self.make_fn(e, st, fid)

    def e_Attribute(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        return self.getattr_(v, e.attr, st)

    def ev_index(self, n, st, fid):
        if isinstance(n, ast.Tuple):
            return Tup([self.ev_index(x, st, fid) for x in n.elts])
        if isinstance(n, ast.Slice):
            f = lambda x: self.ev(x, st, fid) if x is not None else NONE
            return Sl(f(n.lower), f(n.upper), f(n.step))
        return self.ev(n, st, fid)

    def e_Subscript(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        k = self.ev_index(e.slice, st, fid)
        return self.getitem(v, k, st)

    def e_Slice(self, e, st, fid):
        return self.ev_index(e, st, fid)

    def e_UnaryOp(self, e, st, fid):
        v = self.ev(e.operand, st, fid)
        o = type(e.op).__name__
        if o == "Not":
            if isinstance(v, Un):
                return S(opaque(v.why, "b"), "b")
            return S(not_(self.truth(v, st)), "b")
        return self.npm.unop(self, o, v, st)

    def e_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        return self.npm.binop(self, op, a, b, st)

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values, st, fid)

    def boolop(self, isand, values, st, fid):
        v = self.ev(values[0], st, fid)
        if len(values) == 1:
            return v
        c = self.truth(v, st) if not isinstance(v, Un) else opaque(v.why, "b")
        c = simp_under(c, st.pc)
        go = c if isand else not_(c)
        if go is FALSE:
            return v
        if go is TRUE:
            return self.boolop(isand, values[1:], st, fid)
        s2 = st.fork()
        s2.pc = and_(s2.pc, go)
        try:
            w = self.boolop(isand, values[1:], s2, fid)
        except Dead:
            st.pc = and_(st.pc, not_(go))
            return v
        st.take(self.merge(go, s2, st.fork()))
        if isinstance(v, S) and isinstance(w, S) and v.t.sort == "b" and w.t.sort == "b":
            return S(and_(v.t, w.t) if isand else or_(v.t, w.t), "b")
        return self.merge_val(go, w, v)

    def e_Compare(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, st, fid)
            x = self.npm.compare(self, type(op).__name__, a, b, st)
            if res is None:
                res = x
            else:
                res = S(and_(self.truth(res, st), self.truth(x, st)), "b")
            a = b
        return res

    def e_IfExp(self, e, st, fid):
        cv = self.ev(e.test, st, fid)
        c = self.truth(cv, st) if not isinstance(cv, Un) else opaque(cv.why, "b")
        c = simp_under(c, st.pc)
        if c is TRUE:
            return self.ev(e.body, st, fid)
        if c is FALSE:
            return self.ev(e.orelse, st, fid)
        a, b = st.fork(), st.fork()
        a.pc, b.pc = and_(a.pc, c), and_(b.pc, not_(c))
        va = vb = None
        try:
            va = self.ev(e.body, a, fid)
        except Dead:
            a = None
        try:
            vb = self.ev(e.orelse, b, fid)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        st.take(self.merge(c, a, b))
        return va if b is None else vb if a is None else self.merge_val(c, va, vb)

    def e_Call(self, e, st, fid):
        f = self.ev(e.func, st, fid)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                sv = self.ev(x.value, st, fid)
                items = self.concrete_items(sv, st)
                if items is None:
                    if isinstance(sv, It) or isinstance(sv, Ref):
                        args.append(Partial("star", (sv,), {}))
                        continue
                    raise Unsupported("star argument of symbolic length")
                args += items
            else:
                args.append(self.ev(x, st, fid))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                c = self.content(v, st) if isinstance(v, Ref) else None
                if isinstance(c, DictC):
                    kw.update({kk: vv for kk, vv in c.items.items()})
                else:
                    raise Unsupported("** of unknown mapping")
            else:
                kw[k.arg] = v
        ln = self.cur
        self.cur = (ln[0], ln[1], e.lineno)
        r = self.call(f, args, kw, st)
        self.cur = ln
        return r

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(string(x.value))
            else:
                v = self.ev(x.value, st, fid)
                spec = ""
                if x.format_spec is not None:
                    sp = self.ev(x.format_spec, st, fid)
                    spec = sp.const() if isinstance(sp, St) else None
                if x.conversion not in (-1, 115):
                    parts.append(fn("repr_", self.npm.as_term(self, v, st)))
                    continue
                parts.append(self.npm.format_value(self, v, spec, st))
        return St(self.npm.concat(parts))

    def e_FormattedValue(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        spec = ""
        if e.format_spec is not None:
            spec = self.ev(e.format_spec, st, fid).const()
        return St(self.npm.format_value(self, v, spec, st))

    # comprehensions ------------------------------------------------------
    def comp(self, gens, emit, st, fid):
        """run nested generators; emit(st, fid) is called in the innermost body"""
        cf = next(_ids)
        st.heap[cf] = FrameC({}, fid, st.heap[fid].mod)
        if st.heap[fid].parent is None and self.modframes.get(st.heap[fid].mod) != fid:
            pass

        def rec(i, s2):
            if i == len(gens):
                emit(s2, cf)
                return Out(s2)
            g = gens[i]
            itv = self.ev(g.iter, s2, cf if i else fid)
            if isinstance(itv, Un):
                raise UnknownValue("comprehension over " + itv.why)
            segs = self.segments(itv, s2)

            def step(v, s3):
                self.assign(g.target, v, s3, cf)
                c = TRUE
                for t in g.ifs:
                    c = and_(c, self.truth(self.ev(t, s3, cf), s3))
                c = simp_under(c, s3.pc)
                if c is FALSE:
                    return Out(s3)
                if c is TRUE:
                    return rec(i + 1, s3)
                a, b = s3.fork(), s3.fork()
                a.pc, a.br = and_(a.pc, c), and_(a.br, c)
                o = rec(i + 1, a)
                return Out(self.merge(c, o.st, b))
            return self.run_loop(segs, step, s2)
        o = rec(0, st)
        if o.st is None:
            raise Dead()
        if o.st is not st:
            st.take(o.st)

    def e_ListComp(self, e, st, fid):
        r = self.new(st, ListC(()))

        def emit(s2, cf):
            v = self.ev(e.elt, s2, cf)
            s2.heap[r.id] = ListC(s2.heap[r.id].segs + (("i", v),))
        self.comp(e.generators, emit, st, fid)
        return r

    def e_GeneratorExp(self, e, st, fid):
        r = self.e_ListComp(e, st, fid)
        return It(st.heap[r.id].segs)

    def e_SetComp(self, e, st, fid):
        r = self.e_ListComp(e, st, fid)
        return self.npm.make_set(self, It(st.heap[r.id].segs), st)

    def e_DictComp(self, e, st, fid):
        r = self.new(st, DictC({}))

        def emit(s2, cf):
            self.setitem(r, self.ev(e.key, s2, cf), self.ev(e.value, s2, cf), s2)
        self.comp(e.generators, emit, st, fid)
        return r

    def e_Starred(self, e, st, fid):
        raise Unsupported("star")

    def e_Yield(self, e, st, fid):
        v = self.ev(e.value, st, fid) if e.value is not None else NONE
        if "__yield__" not in st.heap[fid].vars:
            if self.yields:
                self.yields[-1](v, st)
                return NONE
            raise Unsupported("yield")
        y = self.lookup("__yield__", st, fid)
        st.heap[y.id] = ListC(st.heap[y.id].segs + (("i", v),))
        return NONE

    def e_YieldFrom(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        y = self.lookup("__yield__", st, fid)
        st.heap[y.id] = ListC(st.heap[y.id].segs + tuple(self.segments(v, st)))
        return NONE


class UnknownValue(Exception):
    pass


def is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def cond_seg(c, s):
    if s[0] == "i":
        return ("d", Dom("r", (), (), (), c), s[1])
    if s[0] == "d":
        return ("d", s[1].with_cond(c), s[2])
    if s[0] == "g":
        return ("g", s[1].with_cond(c), s[2])
    return ("g", Dom("r", (), (), (), c), (s,))


def flatten_segs(segs):
    """nested sequences as flat ones: g(D, (d(E, x),)) -> d(D.E, x)"""
    out = []
    for s in segs:
        if s[0] == "g" and len(s[2]) == 1 and s[2][0][0] in "idg":
            inner = flatten_segs([s[2][0]])
            if inner is None or len(inner) != 1:
                return None
            x = inner[0]
            if x[0] == "i":
                out.append(("d", s[1], x[1]))
            elif s[1].kind == "r" and x[1].kind == "r":
                out.append(("d", Dom("r", s[1].vars + x[1].vars, s[1].los + x[1].los, s[1].his + x[1].his, and_(s[1].cond, x[1].cond)), x[2]))
            else:
                return None
        elif s[0] == "g":
            return None
        else:
            out.append(s)
    return out


def seg_map(s, f, m):
    if s[0] == "i":
        return ("i", f(s[1]))
    if s[0] == "d":
        return ("d", dom_subst(s[1], m), f(s[2]))
    if s[0] == "g":
        return ("g", dom_subst(s[1], m), tuple(seg_map(x, f, m) for x in s[2]))
    return s


def seg_count(s):
    if s[0] == "i":
        return ONE
    if s[0] == "d":
        return s[1].size()
    if s[0] == "g":
        n = ZERO
        for x in s[2]:
            n = add(n, seg_count(x))
        return bind("sum", s[1], n)
    raise Unsupported("length of a partial list")


def pyval(k):
    if k is None:
        return NONE
    if isinstance(k, bool):
        return S(const(k), "b")
    if isinstance(k, int):
        return S(const(k), "i")
    if isinstance(k, float):
        return S(const(k), "f")
    if isinstance(k, str):
        return St(k)
    if isinstance(k, tuple):
        return Tup([pyval(x) for x in k])
    raise Unsupported("constant %r" % (k,))


def cast_term(t, k, to):
    """store value of kind k into storage of kind `to`"""
    if k == to or "bifc".index(k) <= "bifc".index(to):
        return num(t) if to != "b" and t.sort == "b" else t
    if to == "b":
        return tm._bool(t)
    if k == "c":
        t = fn("re", t)
    if to == "i":
        return fn("trunc", t)
    return t
