"""External objects (figures, axes, argument parsers): calls on them are recorded, never carried out.

Every call on an external object becomes one entry of the effect log with the values of its arguments at that
moment; the entries can be inspected by obligations through vc_calls."""
from .terms import *
from .values import *
from . import npmodel as N
from .npmodel import handler, arg, HANDLERS, gate_apply
from .interp import EFF

CURFIG = -9
ARGV = -10
PLOTTING = ("matplotlib.", "mpl_toolkits.")


def snap(I, v, st, depth=0):
    """the value as it is now (later changes of the object do not matter)"""
    if depth > 6:
        return v
    if isinstance(v, Tup):
        return Tup([snap(I, x, st, depth + 1) for x in v.items])
    if isinstance(v, Gt):
        return Gt(v.c, snap(I, v.a, st, depth + 1), snap(I, v.b, st, depth + 1))
    if isinstance(v, It):
        return v
    if isinstance(v, (Ref, View, Cell)):
        c = I.content(v, st)
        if isinstance(c, ArrC):
            return AV(c)
        if isinstance(c, ListC) and c.concrete():
            return Tup([snap(I, x, st, depth + 1) for x in c.values()])
    return v


def record(I, st, what, args, kw):
    e = Eff(what, [snap(I, a, st) for a in args], {k: snap(I, v, st) for k, v in kw.items()}, I.cur[2], "%s:%s" % (I.cur[0], I.cur[1]))
    if I.unrollable:
        raise N.need_unroll()
    st.heap[EFF] = ListC(st.heap[EFF].segs + (("i", e),))
    return e


def real(I, path, i=0):
    n = "ext:%s:%d" % (path, i)
    if n not in SIGS:
        declare(n, "r", hidden=True)
    return S(atom(n), "f", True)


def reals(I, path, st):
    n, v = "extn:" + path, "exta:" + path
    if n not in SIGS:
        declare(n, "i", hidden=True, dist=lambda r, idx, J: 3, nonneg=True, pos=True)
        declare(v, "r", hidden=True)
    d = Dom.range(ZERO, atom(n))
    return I.new(st, ArrC((d,), atom(v, d.vars[0]), "f"))


def intval(I, v):
    if isinstance(v, S) and v.t.op == "c":
        return int(const_of(v))
    return None


def figs(st):
    return st.heap.get(CURFIG, ListC(()))


def new_fig(I, st, naxes):
    n = len(figs(st).segs) + 1
    f = ExtO("fig%d" % n, (const(naxes),))
    st.heap[CURFIG] = ListC(figs(st).segs + (("i", f),))
    return f


def axis(f, i):
    return ExtO("%s.axes%d" % (f.path, i), f.key)


def axes_of(f):
    return [axis(f, i) for i in range(int(cval(f.key[0])))]


def is_fig(v):
    return isinstance(v, ExtO) and v.path.startswith("fig") and v.path[3:].isdigit() and isinstance(v.key, tuple)


def root_fig(v):
    """figure an axes object was made in, or None"""
    p = v.path.split(".")
    if len(p) == 2 and p[0][3:].isdigit() and p[0].startswith("fig") and p[1].startswith("axes") and p[1][4:].isdigit():
        return ExtO(p[0], v.key)
    return None


def current(I, st):
    s = figs(st).segs
    if s and all(x[0] == "i" for x in s):
        return s[-1][1]
    if s:
        raise Unsupported("current figure depends on the path")
    return new_fig(I, st, 0)


@handler("matplotlib.pyplot.subplots")
def _subplots(I, args, kw, st):
    record(I, st, "matplotlib.pyplot.subplots", args, kw)
    nr, nc = arg(args, kw, 0, "nrows", I_(1)), arg(args, kw, 1, "ncols", I_(1))
    a, b = intval(I, nr), intval(I, nc)
    if a is None or b is None:
        raise Unsupported("number of subplots")
    f = new_fig(I, st, a * b)
    ax = axes_of(f)
    sq = kw.get("squeeze")
    if sq is not None and const_of(sq) is False:
        return Tup([f, I.lst(st, [I.lst(st, ax[i * b:(i + 1) * b]) for i in range(a)])])
    if a * b == 1:
        return Tup([f, ax[0]])
    if a == 1 or b == 1:
        return Tup([f, I.lst(st, ax)])
    return Tup([f, I.lst(st, [I.lst(st, ax[i * b:(i + 1) * b]) for i in range(a)])])


@handler("matplotlib.pyplot.gcf")
def _gcf(I, args, kw, st):
    return current(I, st)


@handler("matplotlib.pyplot.gca")
def _gca(I, args, kw, st):
    f = current(I, st)
    return axes_of(f)[-1] if axes_of(f) else ExtO(f.path + ".axes0", f.key)


@handler("matplotlib.pyplot.figure")
def _figure(I, args, kw, st):
    record(I, st, "matplotlib.pyplot.figure", args, kw)
    return new_fig(I, st, 0)


def getattr_ext(I, v, name, st):
    if name == "figure" and root_fig(v) is not None:
        return root_fig(v)
    if name == "axes" and is_fig(v):
        return I.lst(st, axes_of(v))
    return ExtO(v.path + "." + name, v.key)


def call_ext(I, path, key, args, kw, st):
    if path.startswith("logger"):
        return ExtO("logger")
    head, _, meth = path.rpartition(".")
    if meth == "get_axes" and is_fig(ExtO(head, key)):
        return I.lst(st, axes_of(ExtO(head, key)))
    if meth in ("get_xlim", "get_ylim", "get_clim", "get_xbound", "get_ybound"):
        return Tup([real(I, path, 0), real(I, path, 1)])
    if meth in ("get_ticks", "get_xticks", "get_yticks", "tick_values"):
        return reals(I, path, st)
    record(I, st, path, args, kw)
    if meth == "subplots" and is_fig(ExtO(head, key)):
        raise Unsupported("subplots of an existing figure")
    if meth == "pie":
        n = None
        x = arg(args, kw, 0, "x", NONE)
        c = I.content(x, st) if isinstance(x, (Ref, View)) else x
        if isinstance(c, ListC) and c.concrete():
            n = len(c.values())
        elif isinstance(c, Tup):
            n = len(c.items)
        if n is None:
            raise Unsupported("number of wedges")
        return Tup([I.lst(st, [ExtO("%s().wedge%d" % (path, i)) for i in range(n)]), ExtO(path + "().texts"), ExtO(path + "().autotexts")])
    return ExtO(path + "()", None)


N.call_ext, N.getattr_ext = call_ext, getattr_ext


@handler("numpy.genfromtxt", "numpy.loadtxt")
def _table(I, args, kw, st):
    """a table of numbers with at least eight columns, read from a file"""
    record(I, st, "numpy.genfromtxt", args, kw)
    if "table" not in SIGS:
        declare("table", "r", hidden=True)
        declare("tablen", "i", hidden=True, nonneg=True, dist=lambda r, idx, J: r.randint(0, 3))
    d, e = Dom.range(ZERO, add(ONE, atom("tablen"))), Dom.range(ZERO, const(8))
    return I.new(st, ArrC((d, e), atom("table", d.vars[0], e.vars[0]), "f"))


COUNT = [0]


@handler("numpy.percentile")
def _percentile(I, args, kw, st):
    # only ever shown as an axis limit: an unknown number of its own
    COUNT[0] += 1
    return real(I, "percentile", COUNT[0])


@handler("builtins.vc_obj")
def _vc_obj(I, args, kw, st):
    return ExtO(args[0].const())


@handler("builtins.vc_calls")
def _vc_calls(I, args, kw, st):
    """recorded calls of the named methods: list of (receiver, method, positional arguments, keyword arguments)"""
    names = {a.const() for a in args}

    def row(e):
        if not isinstance(e, Eff):
            return None
        head, _, meth = e.what.rpartition(".")
        if names and meth not in names:
            return None
        return Tup([St(head), St(meth), Tup(e.args), I.new(st, DictC({k: v for k, v in e.kw.items()}))])

    def walk(segs):
        out = []
        for s in segs:
            if s[0] == "i":
                x = row(s[1])
                if x is not None:
                    out.append(("i", x))
            elif s[0] == "d":
                x = row(s[2])
                if x is not None:
                    out.append(("d", s[1], x))
            elif s[0] == "g":
                x = walk(s[2])
                if x:
                    out.append(("g", s[1], tuple(x)))
            else:
                raise Unsupported("calls recorded in a loop that was not summarised")
        return out
    return I.new(st, ListC(tuple(walk(st.heap[EFF].segs))))


# ------------------------------------------------------------------ argument parsing
@handler("builtins.vc_argv")
def _vc_argv(I, args, kw, st):
    st.heap[ARGV] = ListC(tuple(("i", x) for x in I.concrete_items(args[0], st)))
    return NONE


@handler("argparse.ArgumentParser")
def _parser(I, args, kw, st):
    return I.new(st, ObjC("argparser", {"specs": I.new(st, ListC(())), "defaults": I.new(st, DictC({}))}))


def pobj(I, v, st):
    c = st.heap[v.id] if isinstance(v, Ref) else None
    if not (isinstance(c, ObjC) and c.cls == "argparser"):
        raise Unsupported("argument parser method on %r" % (v,))
    return c


@handler("obj.add_argument")
def _add_argument(I, args, kw, st):
    c = pobj(I, args[0], st)
    b = c.attrs["specs"]
    names = [a.const() for a in args[1:]]
    if any(n is None for n in names):
        raise Unsupported("option name")
    st.heap[b.id] = ListC(st.heap[b.id].segs + (("i", Tup([Tup([St(n) for n in names]), Tup([Tup([St(k), snap(I, v, st)]) for k, v in kw.items()])])),))
    return ExtO("logger")


@handler("obj.add_argument_group", "obj.add_mutually_exclusive_group")
def _group(I, args, kw, st):
    pobj(I, args[0], st)
    return args[0]


@handler("obj.set_defaults")
def _set_defaults(I, args, kw, st):
    c = pobj(I, args[0], st)
    b = c.attrs["defaults"]
    st.heap[b.id] = DictC(dict(st.heap[b.id].items, **kw))
    return NONE


@handler("obj.parse_args", "obj.parse_known_args")
def _parse_args(I, args, kw, st):
    c = pobj(I, args[0], st)
    argv = arg(args, kw, 1, "args", NONE)
    if argv is NONE:
        if ARGV not in st.heap:
            raise Unsupported("command line")
        items = [s[1] for s in st.heap[ARGV].segs]
    else:
        items = I.concrete_items(argv, st)
    segs = st.heap[c.attrs["specs"].id].segs
    if not all(s[0] == "i" for s in segs):
        raise Unsupported("arguments added on some paths only")
    opts, poss, space = {}, [], {}
    extra = st.heap[c.attrs["defaults"].id].items

    def conv(spec, v):
        ty = spec["kw"].get("type")
        if ty is None:
            return v
        n0 = len(I.aborts)
        r = I.call(ty, [v], {}, st)
        for i in range(n0, len(I.aborts)):
            a = I.aborts[i]
            I.aborts[i] = (a[0], "SystemExit", a[2])
        return r

    for s in segs:
        names = [x.const() for x in s[1].items[0].items]
        k = {x.items[0].const(): x.items[1] for x in s[1].items[1].items}
        flags = [n for n in names if n.startswith("-")]
        spec = dict(names=names, kw=k, flags=flags)
        spec["action"] = k["action"].const() if "action" in k else "store"
        if "dest" in k:
            d = k["dest"].const()
        elif flags:
            d = ([f for f in flags if f.startswith("--")] or flags)[0].lstrip("-").replace("-", "_")
        else:
            d = names[0]
        spec["dest"] = d
        a = spec["action"]
        if a in ("version", "help"):
            pass
        else:
            dflt = k.get("default", S(FALSE, "b") if a == "store_true" else S(TRUE, "b") if a == "store_false" else NONE)
            if isinstance(dflt, St) and a == "store":
                dflt = conv(spec, dflt)
            if d not in space:
                space[d] = extra.get(d, dflt)
        if flags:
            for f in flags:
                opts[f] = spec
        else:
            poss.append(spec)
    opts.setdefault("-h", dict(action="help", dest="help", kw={}))
    opts.setdefault("--help", dict(action="help", dest="help", kw={}))

    def die():
        I.abort(st, TRUE, "SystemExit")

    def check(spec, v):
        ch = spec["kw"].get("choices")
        if ch is not None:
            I.abort(st, not_(N.contains(I, ch, v, st)), "SystemExit")
        return v

    free, i, seen, raw = [], 0, set(), False
    while i < len(items):
        x = items[i]
        i += 1
        t = x.const() if isinstance(x, St) else None
        if not isinstance(x, St):
            raise Unsupported("command line element")
        if t == "--" and not raw:
            raw = True
            continue
        if raw or t is None or not t.startswith("-") or t == "-":
            free.append(x)
            continue
        name, eq_, val = t.partition("=") if t.startswith("--") else (t, "", "")
        if name not in opts:
            m = {id(opts[o]): o for o in opts if o.startswith(name)} if name.startswith("--") else {}
            if len(m) == 1:
                name = list(m.values())[0]
            elif name[:2] in opts and not name.startswith("--") and opts[name[:2]]["action"] == "store":
                name, eq_, val = name[:2], "=", name[2:]
            else:
                die()
        spec = opts[name]
        seen.add(spec["dest"])
        a = spec["action"]
        if a in ("version", "help"):
            die()
        if a == "store_const":
            space[spec["dest"]] = spec["kw"].get("const", NONE)
        elif a in ("store_true", "store_false"):
            space[spec["dest"]] = S(TRUE if a == "store_true" else FALSE, "b")
        elif a == "store":
            na = spec["kw"].get("nargs")
            na = na.const() if isinstance(na, St) else None if na is None else const_of(na)
            if eq_:
                v = St(val)
            elif i < len(items) and not ((items[i].const() or "x").startswith("-")):
                v = items[i]
                i += 1
            elif na == "?":
                space[spec["dest"]] = spec["kw"].get("const", NONE)
                continue
            else:
                die()
            if na not in (None, "?"):
                raise Unsupported("nargs of an option")
            space[spec["dest"]] = check(spec, conv(spec, v))
        else:
            raise Unsupported("action " + str(a))
    for n, spec in enumerate(poss):
        na = spec["kw"].get("nargs")
        na = na.const() if isinstance(na, St) else None if na is None else const_of(na)
        if na is None:
            if not free:
                die()
            space[spec["dest"]] = check(spec, conv(spec, free.pop(0)))
        elif na == "?":
            later = sum(1 for p in poss[n + 1:] if "nargs" not in p["kw"])
            if len(free) > later:
                space[spec["dest"]] = check(spec, conv(spec, free.pop(0)))
        else:
            raise Unsupported("nargs of a positional argument")
    if free:
        die()
    for s in opts.values():
        r = s["kw"].get("required")
        if r is not None and const_of(r) is True and s["dest"] not in seen:
            die()
    r = I.new(st, ObjC("namespace", space))
    return r
