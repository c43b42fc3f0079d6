"""Source rules: N03 (determinism, hidden state), N04 (swallowed failures), S01 (ignored options)."""
import ast
import builtins

from ..rules import *

OBS = []
RULES = []
_cache = {}


def package(prog):
    p = _cache.get(id(prog))
    if p is None:
        p = _cache[id(prog)] = Package(prog)
    return p


def rule(prop, name):
    def deco(f):
        RULES.append((prop, name, f))
        return f
    return deco


def maximal_refs(pk, m):
    """(node, dotted path) of every outermost name or attribute chain in a module"""
    par = parents(m.tree)
    fn_of = {}
    for f in pk.fns:
        if f.mod is m:
            for n in own(f.node):
                fn_of[n] = f
            for n in own(f.node, nested=True):
                fn_of.setdefault(n, f)
    # innermost function wins
    for f in sorted((f for f in pk.fns if f.mod is m), key=lambda f: f.qual.count(".")):
        for n in own(f.node, nested=True):
            fn_of[n] = f
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Name, ast.Attribute)) and not (isinstance(par.get(n), ast.Attribute) and par[n].value is n):
            f = fn_of.get(n)
            d = pk.dotted(m, n, f)
            yield n, d, f, par


RANDOM = ("random.", "numpy.random.", "secrets.", "uuid.", "os.urandom", "scipy.stats.", "builtins.hash", "builtins.id")
CLOCK = ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.clock", "time.localtime", "time.gmtime", "time.strftime",
         "time.time_ns", "time.ctime", "datetime.", "timeit.")
ENVIRON = ("os.environ", "os.getenv", "os.getpid", "os.getlogin", "os.getcwd", "os.uname", "os.cpu_count", "platform.", "socket.", "getpass.", "locale.", "builtins.input", "sys.flags",
           "tempfile.", "os.times", "os.stat", "os.path.getmtime", "os.listdir", "glob.")
LOGGERS = ("log", "logger", "_log", "_logger", "logging")


def starts(d, prefixes):
    return d is not None and any(d == p.rstrip(".") or d.startswith(p if p.endswith(".") else p + ".") or d == p for p in prefixes)


PURE = {"str", "float", "int", "round", "format", "abs", "max", "min", "divmod", "repr", "join", "len", "bool", "tuple", "list", "dict", "isinstance", "timedelta"}


def only_logged(pk, m, f, node, par):
    """does the value of a clock reading end up only in log messages?  Package-wide flow through names (per function), attributes (by name),
    parameters and results of the package's own functions."""
    tainted = set()
    seeds = {id(node)}

    def scope(fn, name):
        g = fn
        while g is not None and name not in pk.locals_of(g):
            g = g.outer
        return g

    def callees(mod, fn, g):
        d = pk.dotted(mod, g, fn)
        hit = pk.lookup(d) if d else set()
        if hit or d is not None:
            return hit
        if isinstance(g, ast.Name):
            return {x for x in pk.byname.get(g.id, []) if x.outer is not None}
        if isinstance(g, ast.Attribute):
            return {x for x in pk.byname.get(g.attr, []) if x.cls}
        return set()

    def carries(e, mod, fn):
        for n in ast.walk(e):
            if id(n) in seeds:
                return True
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and ("v", scope(fn, n.id) or mod.mod, n.id) in tainted:
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and ("a", n.attr) in tainted:
                return True
            if isinstance(n, ast.Call) and any(("r", g) in tainted for g in callees(mod, fn, n.func)):
                return True
        return False

    def taint(k):
        if k in tainted:
            return False
        tainted.add(k)
        return True

    units = [(x.mod, x, list(own(x.node))) for x in pk.fns]
    for mod in pk.mods.values():
        inner = {id(n) for x in pk.fns if x.mod is mod for n in own(x.node)}
        units.append((mod, None, [n for n in ast.walk(mod.tree) if id(n) not in inner]))
    grow = True
    while grow:
        grow = False
        for mod, fn, nodes in units:
            for n in nodes:
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and carries(n.value, mod, fn):
                    for t in targets_of(n):
                        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                            if isinstance(x, ast.Name):
                                grow |= taint(("v", scope(fn, x.id) or mod.mod, x.id))
                            elif isinstance(x, ast.Attribute):
                                grow |= taint(("a", x.attr))
                            else:
                                return False
                elif isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None and carries(n.value, mod, fn):
                    return False
                elif isinstance(n, ast.Return) and n.value is not None and carries(n.value, mod, fn):
                    if not pk.callers()[fn] or not (fn.name.startswith("_") or fn.outer is not None or fn.cls):
                        return False
                    grow |= taint(("r", fn))
                    if fn.cls:
                        grow |= taint(("a", fn.name))
                elif isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)) and carries(n.test, mod, fn):
                    return False
                elif isinstance(n, (ast.For, ast.comprehension)) and carries(n.iter, mod, fn):
                    return False
                elif isinstance(n, ast.Call) and id(n.func) not in seeds:
                    args = list(n.args) + [k.value for k in n.keywords]
                    if not any(carries(a, mod, fn) for a in args):
                        continue
                    g = n.func
                    base = base_of(g)
                    named = g.attr if isinstance(g, ast.Attribute) else g.id if isinstance(g, ast.Name) else ""
                    chain = {x.attr for x in ast.walk(g) if isinstance(x, ast.Attribute)} | {base.id if isinstance(base, ast.Name) else ""}
                    if chain & set(LOGGERS) or named in PURE:
                        continue
                    hit = callees(mod, fn, g)
                    if not hit:
                        return False
                    for c in hit:
                        ps = list(c.params)
                        if c.cls and ps and (isinstance(g, ast.Attribute) or c.name == "__init__"):
                            ps = ps[1:]
                        spread = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
                        for i, a in enumerate(n.args):
                            if carries(a, mod, fn):
                                for p in (ps if spread or i >= len(ps) else [ps[i]]):
                                    grow |= taint(("v", c, p))
                        for k in n.keywords:
                            if carries(k.value, mod, fn):
                                for p in ([k.arg] if k.arg in ps else ps):
                                    grow |= taint(("v", c, p))
    return True


def licensed(pk, roots):
    """functions reachable only from the given public functions (helpers split out of them)"""
    ok = set(roots)
    callers = pk.callers()
    grow = True
    while grow:
        grow = False
        for f in pk.fns:
            if f in ok:
                continue
            if f.outer in ok or (callers[f] and callers[f] <= ok):
                ok.add(f)
                grow = True
    return ok


@rule("N03", "N03_sources")
def sources(prog):
    """random numbers only for the noise generator and randomised sampling; clock readings only in log messages; no environment"""
    pk = package(prog)
    P = prog.package
    roots = [f for f in pk.fns if (f.mod.mod, f.qual) in ((P + ".coefficients", "noise"), (P + ".fibonacci_sphere", "fibonacci_sphere"))]
    ok = licensed(pk, roots)
    viol, sites, notes = [], 0, []
    for m in pk.mods.values():
        for n, d, f, par in maximal_refs(pk, m):
            if d is None:
                continue
            where = at(m, n)
            owner = f.qual if f else "module level"
            if starts(d, RANDOM):
                sites += 1
                if f not in ok:
                    viol.append(("%s in %s" % (d, owner), "%s: %s uses %s; only noise and fibonacci_sphere may draw random numbers" % (where, owner, d)))
            elif starts(d, CLOCK):
                sites += 1
                if not only_logged(pk, m, f, n, par):
                    viol.append(("%s in %s" % (d, owner), "%s: the clock reading %s in %s reaches more than log messages" % (where, d, owner)))
            elif starts(d, ENVIRON):
                if d in ("os.path",):
                    continue
                sites += 1
                viol.append(("%s in %s" % (d, owner), "%s: %s depends on the environment through %s" % (where, owner, d)))
    return dict(violations=viol, sites=sites, notes=notes, anchor=["coefficients:noise", "fibonacci_sphere:fibonacci_sphere"],
                visited=sorted("%s.%s" % (f.mod.mod, f.qual) for f in pk.fns))


SETTERS = ("numpy.seterr", "numpy.set_printoptions", "numpy.random.seed", "random.seed", "os.chdir", "os.putenv", "os.umask", "warnings.filterwarnings", "warnings.simplefilter",
           "sys.setrecursionlimit", "locale.setlocale", "matplotlib.use", "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.style.use", "matplotlib.pyplot.style.use",
           "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update", "matplotlib.rcdefaults", "matplotlib.pyplot.rcdefaults", "logging.disable",
           "numpy.seterrcall", "numpy.setbufsize", "builtins.setattr", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff")
MUTATORS = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "remove", "sort", "reverse", "fill", "put",
            "resize", "partition", "itemset", "setflags", "appendleft", "popleft", "cache_clear", "__setitem__"}


def base_of(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e


@rule("N03", "N03_state")
def hidden_state(prog):
    """no function assigns package-level or library-level state"""
    pk = package(prog)
    viol, sites = [], 0
    for f in pk.fns:
        m = f.mod
        for n in own(f.node):
            if isinstance(n, ast.Global):
                stored = {x.id for x in own(f.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
                for g in n.names:
                    sites += 1
                    if g in stored:
                        viol.append(("global %s in %s" % (g, f.qual), "%s: %s assigns the package-level name %s" % (at(m, n), f.qual, g)))
            ts = list(targets_of(n)) + (n.targets if isinstance(n, ast.Delete) else [])
            flat = []
            for t in ts:
                flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
            for t in flat:
                if not isinstance(t, (ast.Attribute, ast.Subscript)):
                    continue
                sites += 1
                b = base_of(t)
                d = pk.dotted(m, b, f) if isinstance(b, ast.Name) else None
                if isinstance(b, ast.Name) and b.id == "cls" and "cls" in f.params and f.cls:
                    d = m.mod + "." + f.cls
                if d is not None and not d.startswith("builtins."):
                    viol.append(("%s in %s" % (d, f.qual), "%s: %s assigns %s, which outlives the call" % (at(m, n), f.qual, ast.unparse(t))))
                if isinstance(t, ast.Attribute) and any(isinstance(x, ast.Attribute) and x.attr in ("__class__", "__dict__") for x in ast.walk(t.value)):
                    viol.append(("__class__ in %s" % f.qual, "%s: %s assigns %s" % (at(m, n), f.qual, ast.unparse(t))))
            if isinstance(n, ast.Call):
                d = pk.dotted(m, n.func, f)
                if d in SETTERS:
                    sites += 1
                    if d == "builtins.setattr" and not (n.args and pk.dotted(m, n.args[0], f)):
                        continue
                    viol.append(("%s in %s" % (d, f.qual), "%s: %s changes process-wide state through %s" % (at(m, n), f.qual, d)))
                elif isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    b = base_of(n.func.value)
                    d = pk.dotted(m, b, f) if isinstance(b, ast.Name) else None
                    if d is not None and d.startswith(prog.package + ".") and b.id in m.globals or (d is not None and d in module_objects(pk)):
                        sites += 1
                        viol.append(("%s in %s" % (d, f.qual), "%s: %s modifies the package-level object %s" % (at(m, n), f.qual, d)))
    return dict(violations=viol, sites=sites, anchor=["coefficients:Coefficients", "pfss_magnetogram:evaluate_spherical"],
                visited=sorted("%s.%s" % (f.mod.mod, f.qual) for f in pk.fns))


def module_objects(pk):
    r = getattr(pk, "_objs", None)
    if r is None:
        r = pk._objs = {m.mod + "." + n for m in pk.mods.values() for s in m.tree.body for t in targets_of(s) for n in names_in_target(t)}
    return r


@rule("N03", "N03_defaults")
def defaults(prog):
    """default argument values are never modified or handed out for modification"""
    pk = package(prog)
    viol, sites = [], 0
    for f in pk.fns:
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            if isinstance(d, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Name, ast.Attribute, ast.Tuple, ast.Lambda)):
                continue
            sites += 1
            alias = {p.arg}
            grow = True
            while grow:
                grow = False
                for n in own(f.node, nested=True):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in alias:
                        for t in n.targets:
                            if isinstance(t, ast.Name) and t.id not in alias:
                                alias.add(t.id)
                                grow = True
            for n in own(f.node, nested=True):
                bad = None
                for t in targets_of(n):
                    if isinstance(t, (ast.Attribute, ast.Subscript)) and isinstance(base_of(t), ast.Name) and base_of(t).id in alias:
                        bad = ast.unparse(t)
                    if isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id in alias:
                        bad = t.id
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(base_of(n.func), ast.Name) and base_of(n.func).id in alias:
                    bad = ast.unparse(n.func)
                literal = isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp))
                if literal and isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in alias:
                    bad = "return " + n.value.id
                if bad:
                    viol.append(("default of %s in %s" % (p.arg, f.qual), "%s: %s changes the default value of %s (%s), which all later calls share" % (at(f.mod, n), f.qual, p.arg, bad)))
    return dict(violations=viol, sites=sites, anchor=["plot_pfss:plot_streamtraces"], visited=sorted("%s.%s" % (f.mod.mod, f.qual) for f in pk.fns))


# ------------------------------------------------------------------ N04
BROAD = {"Exception", "BaseException", "OSError", "IOError", "EnvironmentError", "AssertionError", "SystemExit", "KeyboardInterrupt", "RuntimeError", "ArithmeticError",
         "FloatingPointError", "MemoryError", "StopIteration", "GeneratorExit", "FileNotFoundError", "PermissionError", "UnicodeError", "UnicodeDecodeError", "NotImplementedError", "ZeroDivisionError"}
PARENTS = {"IndexError": {"LookupError"}, "KeyError": {"LookupError"}, "UnicodeDecodeError": {"ValueError", "UnicodeError"}, "ModuleNotFoundError": {"ImportError"},
           "NotImplementedError": {"RuntimeError"}, "ZeroDivisionError": {"ArithmeticError"}, "OverflowError": {"ArithmeticError"}}


def caught_names(pk, m, f, t):
    if t is None:
        return {"BaseException"}
    ts = t.elts if isinstance(t, ast.Tuple) else [t]
    out = set()
    for x in ts:
        d = pk.dotted(m, x, f) or ast.unparse(x)
        out.add(d.rsplit(".", 1)[-1])
    return out


def reraises(body):
    """every way through the handler ends by raising"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and reraises(s.body) and reraises(s.orelse):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.With) and reraises(s.body):
            return True
    return False


def raised_in(pk, f, caught):
    out = []
    for n in own(f.node):
        if isinstance(n, ast.Assert) and caught & {"AssertionError", "Exception", "BaseException"}:
            out.append(n)
        if isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            nm = (pk.dotted(f.mod, e, f) or ast.unparse(e)).rsplit(".", 1)[-1]
            if nm in caught or PARENTS.get(nm, set()) & caught or caught & {"Exception", "BaseException"}:
                out.append(n)
    return out


def body_calls(pk, m, f, stmts):
    out = set()
    for s in stmts:
        for n in [s] + list(ast.walk(s)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                d = pk.dotted(m, n, f)
                out |= pk.lookup(d) if d else {g for g in pk.byname.get(n.id, []) if g.outer is not None and f is not None and (g.outer is f or g.outer is f.outer)}
            elif isinstance(n, ast.Attribute):
                d = pk.dotted(m, n, f)
                hit = pk.lookup(d) if d else set()
                out |= hit
                if not hit and d is None:
                    out |= {g for g in pk.byname.get(n.attr, []) if g.cls}
    return out


FILEOPS = ("builtins.open", "os.remove", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "os.unlink", "shutil.")
DATA = ("builtins.open", "numpy.genfromtxt", "numpy.loadtxt", "numpy.fromfile", "numpy.load", "numpy.savetxt", "numpy.save", "scipy.special.", "io.open")


def judge_handler(pk, m, f, node, types, caught, stmts, kind, viol):
    owner = f.qual if f else "module level"
    where = at(m, node)
    key = "%s in %s" % (kind, owner)
    if f is None and all(isinstance(x, (ast.Import, ast.ImportFrom)) or isinstance(x, (ast.Assign, ast.Expr)) and not any(
            g for g in body_calls(pk, m, f, [x])) for x in stmts):
        return                      # optional-dependency or version probe at import time: no package operation is guarded
    if caught & BROAD:
        viol.append((key, "%s: %s handles %s and carries on; failures other than the expected one are lost" % (where, owner, ", ".join(sorted(caught & BROAD)))))
        return
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in stmts for n in ast.walk(s)):
        viol.append((key, "%s: %s swallows %s from the caller's block" % (where, owner, ", ".join(sorted(caught)))))
        return
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                d = pk.dotted(m, n.func, f)
                if starts(d, FILEOPS + DATA) and not caught <= {"ImportError", "ModuleNotFoundError", "AttributeError"}:
                    viol.append((key, "%s: %s carries on after %s from %s" % (where, owner, ", ".join(sorted(caught)), d)))
                    return
            if isinstance(n, (ast.Raise,)) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                nm = ast.unparse(e).rsplit(".", 1)[-1]
                del nm
    callers = pk.callers()
    seen, todo = set(), list(body_calls(pk, m, f, stmts))
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        todo += list(pk.refs(g))
    local = {g for g in seen if f is not None and (g.outer is f or (callers[g] and callers[g] <= {f} | {x for x in seen if x.name.startswith("_")}))}
    for g in sorted(seen - local, key=repr):
        r = raised_in(pk, g, caught)
        if r:
            viol.append((key, "%s: %s swallows the %s that %s raises at %s" % (where, owner, "/".join(sorted(caught)), g.qual, at(g.mod, r[0]))))
            return


@rule("N04", "N04_handlers")
def handlers(prog):
    """exception handlers that carry on are narrow and guard no package operation that reports failure"""
    pk = package(prog)
    viol, sites = [], 0
    for m in pk.mods.values():
        fn_of = {}
        for f in sorted((f for f in pk.fns if f.mod is m), key=lambda f: f.qual.count(".")):
            for n in own(f.node, nested=True):
                fn_of[n] = f
        for n in ast.walk(m.tree):
            f = fn_of.get(n)
            if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
                for h in n.handlers:
                    sites += 1
                    if not reraises(h.body):
                        judge_handler(pk, m, f, h, h.type, caught_names(pk, m, f, h.type), n.body, "handler", viol)
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                            viol.append(("finally in %s" % (f.qual if f else "module level"), "%s: leaving a finally block by return, break or continue discards the error" % at(m, x)))
            if isinstance(n, ast.With):
                for i in n.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and pk.dotted(m, c.func, f) == "contextlib.suppress":
                        sites += 1
                        caught = set().union(*[caught_names(pk, m, f, a) for a in c.args]) if c.args else set()
                        judge_handler(pk, m, f, c, None, caught, n.body, "suppress", viol)
            if isinstance(n, FUNC) and n.name in ("__exit__", "__aexit__"):
                sites += 1
                for x in own(n):
                    if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and not x.value.value):
                        viol.append(("__exit__ at %s" % m.mod, "%s: a context manager whose __exit__ returns %s discards errors" % (at(m, x), ast.unparse(x.value))))
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "errors" and isinstance(k.value, ast.Constant) and k.value.value in ("ignore", "replace", "surrogateescape", "backslashreplace") \
                            or k.arg == "invalid_raise" and isinstance(k.value, ast.Constant) and k.value.value is False:
                        viol.append(("%s in %s" % (k.arg, f.qual if f else "module level"), "%s: %s=%s makes unreadable input pass silently" % (at(m, n), k.arg, ast.unparse(k.value))))
                d = pk.dotted(m, n.func, f)
                if d in ("sys.exit", "os._exit", "builtins.exit", "builtins.quit") and f is not None:
                    if not n.args or isinstance(n.args[0], ast.Constant) and n.args[0].value in (0, None, False):
                        sites += 1
                        viol.append(("%s in %s" % (d, f.qual), "%s: %s ends the process as if it had succeeded" % (at(m, n), f.qual)))
    return dict(violations=viol, sites=sites, anchor=["reader_writer:read_magnetogram_file"], visited=sorted("%s.%s" % (f.mod.mod, f.qual) for f in pk.fns))


# ------------------------------------------------------------------ S01
PLOTS = ("plots", "plot_zdi", "plot_pfss", "plot_lsd", "longitudinal_field", "colorbar_manual_tickmarks")


@rule("S01", "S01_parameters")
def parameters(prog):
    """the value of every parameter of a plotting function is read (for more than a None test) by its body"""
    pk = package(prog)
    viol, sites = [], 0
    for f in pk.fns:
        if f.mod.mod.rsplit(".", 1)[-1] not in PLOTS or f.outer is not None:
            continue
        for p in f.params:
            if p in ("self", "cls") or p.startswith("_"):
                continue
            sites += 1
            par = parents(f.node)
            used = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load):
                    q = par.get(n)
                    if isinstance(q, ast.Compare) and q.left is n and len(q.ops) == 1 and isinstance(q.ops[0], (ast.Is, ast.IsNot)) \
                            and isinstance(q.comparators[0], ast.Constant) and q.comparators[0].value is None:
                        continue
                    if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and q.targets[0].id in ("_", p):
                        continue
                    if isinstance(q, ast.Expr) or isinstance(q, ast.Delete):
                        continue
                    used = True
            if not used:
                viol.append(("%s.%s.%s" % (f.mod.mod.split(".", 1)[-1], f.qual, p), "%s: %s accepts %s and never uses it" % (at(f.mod, f.node), f.qual, p)))
    return dict(violations=viol, sites=sites, anchor=["plots:plot_magnetic_field"], visited=sorted("%s.%s" % (f.mod.mod, f.qual) for f in pk.fns if f.mod.mod.rsplit(".", 1)[-1] in PLOTS))
