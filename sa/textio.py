"""Text, tokens and files: a virtual file system for the analysed code.

Opening a file never touches the disk; what is written becomes a symbolic text."""
import re
from .terms import *
from .values import *
from . import npmodel as N
from .npmodel import handler, concat, arg, HANDLERS, is_const, const_of, I_, gate_apply

FILES = -7
STDOUT = -8
NUMSPEC = re.compile(r"^%?([-+ 0<>^=#]*)(\d*)(?:\.(\d+))?([deEfFgGin]?)$")


def strip_core(t):
    """drop surrounding whitespace operations that do not change the tokens"""
    while True:
        if t.op in ("py:strip", "py:rstrip", "py:lstrip") and len(t.args) == 1:
            t = t.args[0]
        elif t.op == "concat" and t.args[-1].op == "str" and not t.args[-1].args[0].strip():
            t = concat(list(t.args[:-1]))
        elif t.op == "concat" and t.args[0].op == "str" and not t.args[0].args[0].strip():
            t = concat(list(t.args[1:]))
        else:
            return t


def pieces(t):
    return list(t.args) if t.op == "concat" else [t]


def word(t):
    """is this text one padded word without inner white space?"""
    if t.op == "fmt" and t.args[0].op == "str" and t.args[1].sort in "irc":
        m = NUMSPEC.match(t.args[0].args[0])
        return bool(m) and t.args[1].sort != "c"
    return t.op == "strof" and t.args[0].sort in "ir"


def tokens_of(t):
    """words of a text of known structure, or None"""
    t = strip_core(t)
    out, cur = [], []

    def flush():
        if cur:
            out.append(cur[0] if len(cur) == 1 else concat(cur))
            del cur[:]
    for p in pieces(t):
        if p.op == "str":
            s = p.args[0]
            parts = re.split(r"(\s+)", s)
            for q in parts:
                if not q:
                    continue
                if q.isspace():
                    flush()
                else:
                    cur.append(string(q))
        elif word(p):
            padded = p.op == "fmt" and NUMSPEC.match(p.args[0].args[0]).group(2)
            if cur and padded:
                return None
            cur.append(mk("py:strip", (p,), "s") if p.op == "fmt" else p)
            if padded:
                cur_len = len(cur)
                if cur_len > 1:
                    return None
        else:
            return None
    flush()
    return out


def inner_fmt(t):
    if t.op == "py:strip" and len(t.args) == 1:
        t = t.args[0]
    if t.op in ("fmt", "strof") and word(t):
        return t
    return None


def int_text(I, t, st):
    """integer read from text of known structure (or None)"""
    f = inner_fmt(t)
    if f is None:
        return None
    if f.op == "strof":
        if f.args[0].sort == "i":
            return f.args[0]
        I.abort(st, TRUE, "ValueError")
    c = NUMSPEC.match(f.args[0].args[0]).group(4)
    if c in ("d", "i", "") and f.args[1].sort == "i":
        return f.args[1]
    if c == "d" and f.args[0].args[0].startswith("%"):
        return fn("trunc", f.args[1])
    if c in "eEfFgG" and c:
        I.abort(st, TRUE, "ValueError")
    return None


def float_text(I, t, st):
    f = inner_fmt(t)
    if f is None:
        return None
    if f.op == "strof":
        return num(f.args[0])
    return mk("fmtnum", (f.args[0], f.args[1]), "r")


N.int_text, N.float_text = int_text, float_text


def lines_of(t):
    """lines of a text of known structure"""
    out, cur = [], []
    for p in pieces(t):
        if p.op == "str":
            q = p.args[0].split("\n")
            for i, x in enumerate(q):
                if i:
                    out.append(concat(cur))
                    cur = []
                if x:
                    cur.append(string(x))
        elif word(p) or p.op in ("f", "opq", "basename", "strobj", "realpath") or p.op == "fmt":
            cur.append(p)
        else:
            return None
    if cur:
        out.append(concat(cur))
    return out


def opened(st):
    return st.heap.get(FILES, ListC(()))


def printed(st):
    return st.heap.get(STDOUT, ListC(()))


@handler("builtins.vc_printed")
def _vc_printed(I, args, kw, st):
    """everything printed so far, as one text"""
    segs = printed(st).segs
    if all(s[0] == "i" for s in segs):
        return St(concat([s[1].t for s in segs]))
    return St(mk("join", (string(""), N.segs_text(I, segs, st)), "s"))


@handler("builtins.open", "io.open", "codecs.open")
def _open(I, args, kw, st):
    path = args[0]
    mode = arg(args, kw, 1, "mode", St("r"))
    if isinstance(path, Gt):
        return gate_apply(I, path.c, lambda s: _open(I, [path.a] + list(args[1:]), kw, s),
                          lambda s: _open(I, [path.b] + list(args[1:]), kw, s), st)
    if not isinstance(path, St):
        raise Unsupported("open of %r" % (path,))
    if not isinstance(mode, St) or mode.const() is None:
        raise Unsupported("open mode")
    m = mode.const().replace("t", "")
    if m in ("r", "rb", "rU"):
        lines = None
        for p, ls in getattr(I, "infiles", ()):
            if p is path.t:
                lines = list(ls)
        for s in opened(st).segs[::-1]:
            if lines is None and s[0] == "i" and s[1].items[0].t is path.t:
                lt_ = lines_of(file_text(I, s[1].items[2], st).t)
                if lt_ is None:
                    raise Unsupported("reading back text of unknown structure")
                lines = [("i", St(x)) for x in lt_]
        if lines is None:
            n = mk("nlines", (path.t,), "i")
            d = Dom.range(ZERO, n)
            lines = [("d", d, St(mk("line", (path.t, d.vars[0]), "s")))]
        buf = I.new(st, ListC(tuple(lines)))
        return I.new(st, ObjC("file", {"name": path, "mode": mode, "buf": buf}))
    if m[0] not in "wax":
        raise Unsupported("open mode " + m)
    if m[0] == "x":
        I.abort(st, mk("exists", (path.t,), "b"), "FileExistsError")
    I.effect(st, "open." + m[0], [path], {})
    buf = I.new(st, ListC(()))
    st.heap[FILES] = ListC(opened(st).segs + (("i", Tup([path, St(m), buf])),))
    return I.new(st, ObjC("file", {"name": path, "mode": mode, "buf": buf}))


def fobj(I, v, st):
    c = st.heap[v.id]
    if not (isinstance(c, ObjC) and c.cls == "file"):
        raise Unsupported("method of %r" % (c.cls,))
    return c


def text_value(I, v, st):
    if isinstance(v, St):
        return v
    if isinstance(v, Gt):
        return St(ite(v.c, text_value(I, v.a, st).t, text_value(I, v.b, st).t))
    if isinstance(v, Un):
        return St(opaque(v.why, "s"))
    I.abort(st, TRUE, "TypeError")


@handler("obj.write")
def _write(I, args, kw, st):
    c = fobj(I, args[0], st)
    b = c.attrs["buf"]
    st.heap[b.id] = ListC(st.heap[b.id].segs + (("i", text_value(I, args[1], st)),))
    return S(fresh_int(), "i")


def fresh_int():
    return opaque("number of characters written", "i")


@handler("obj.writelines")
def _writelines(I, args, kw, st):
    c = fobj(I, args[0], st)
    b = c.attrs["buf"]
    st.heap[b.id] = ListC(st.heap[b.id].segs + tuple(I.segments(args[1], st)))
    return NONE


@handler("obj.close", "obj.flush")
def _close(I, args, kw, st):
    fobj(I, args[0], st)
    return NONE


@handler("obj.__enter__")
def _enter(I, args, kw, st):
    return args[0]


def withnl(segs):
    out = []
    for s in segs:
        if s[0] == "i":
            out.append(("i", St(concat([s[1].t, string("\n")]))))
        elif s[0] == "d":
            out.append(("d", s[1], St(concat([s[2].t, string("\n")]))))
        else:
            raise Unsupported("nested lines")
    return out


@handler("obj.readlines", "obj.__iter__")
def _readlines(I, args, kw, st):
    c = fobj(I, args[0], st)
    return I.new(st, ListC(tuple(withnl(st.heap[c.attrs["buf"].id].segs))))


@handler("obj.read")
def _read(I, args, kw, st):
    c = fobj(I, args[0], st)
    segs = withnl(st.heap[c.attrs["buf"].id].segs)
    raw = tuple(st.heap[c.attrs["buf"].id].segs)
    if all(s[0] == "i" for s in segs):
        return FileText(concat([s[1].t for s in segs]), raw)
    return FileText(mk("join", (string(""), N.segs_text(I, segs, st)), "s"), raw)


def file_text(I, buf, st):
    segs = st.heap[buf.id].segs
    if all(s[0] == "i" for s in segs):
        return St(concat([s[1].t for s in segs]))
    return St(mk("join", (string(""), N.segs_text(I, segs, st)), "s"))


@handler("builtins.vc_written")
def _vc_written(I, args, kw, st):
    """list of (path, text) of the files written so far"""
    out = []
    for s in opened(st).segs:
        f = lambda t: Tup([t.items[0], file_text(I, t.items[2], st)])
        if s[0] == "i":
            out.append(("i", f(s[1])))
        elif s[0] == "d" and not s[1].vars:
            out.append(("d", s[1], f(s[2])))
        else:
            raise Unsupported("files opened in a loop")
    return I.new(st, ListC(tuple(out)))


@handler("builtins.vc_lines")
def _vc_lines(I, args, kw, st):
    """lines of a text whose structure is known"""
    r = lines_of(args[0].t)
    if r is None:
        raise Unsupported("lines of text of unknown structure")
    return I.lst(st, [St(x) for x in r])
