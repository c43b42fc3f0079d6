"""Conventional source analyses over the whole package: import resolution, call graph,
effect and taint queries.  Used by the rules in sa/props/state.py."""
import ast
import builtins

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


class Fn:
    def __init__(self, mod, qual, node, cls, outer):
        self.mod, self.qual, self.node, self.cls, self.outer = mod, qual, node, cls, outer

    @property
    def name(self):
        return self.node.name

    def __repr__(self):
        return "%s:%s" % (self.mod.mod, self.qual)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


class Mod:
    def __init__(self, name, tree, path, package):
        self.mod, self.tree, self.path = name, tree, path
        self.imports = {}     # local name -> dotted path (module-level and function-level)
        self.globals = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    up = name.split(".")
                    is_pkg = path.endswith("__init__.py")
                    up = up[:len(up) - n.level + (1 if is_pkg else 0)]
                    base = ".".join(up + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
        for s in tree.body:
            for t in targets_of(s):
                self.globals |= set(names_in_target(t))
            if isinstance(s, FUNC + (ast.ClassDef,)):
                self.globals.add(s.name)


def targets_of(s):
    if isinstance(s, ast.Assign):
        return s.targets
    if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        return [s.target]
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return [s.target]
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return [i.optional_vars for i in s.items if i.optional_vars]
    if isinstance(s, ast.NamedExpr):
        return [s.target]
    return []


def names_in_target(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for e in t.elts for x in names_in_target(e)]
    if isinstance(t, ast.Starred):
        return names_in_target(t.value)
    return []


class Package:
    def __init__(self, prog):
        self.prog = prog
        self.mods = {m: Mod(m, t, prog.files[m], prog.package) for m, t in prog.trees.items()}
        self.fns = []
        self.classes = {}
        for m in self.mods.values():
            self._collect(m, m.tree, "", None, None)
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f.name, []).append(f)
        self._callers = None

    def _collect(self, m, node, pre, cls, outer):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, FUNC):
                f = Fn(m, pre + c.name, c, cls, outer)
                self.fns.append(f)
                self._collect(m, c, pre + c.name + ".", None, f)
            elif isinstance(c, ast.ClassDef):
                self.classes[(m.mod, c.name)] = c
                self._collect(m, c, pre + c.name + ".", c.name, outer)
            else:
                self._collect(m, c, pre, cls, outer)

    # ---------------------------------------------------------------- names
    def dotted(self, m, e, fn=None):
        """dotted library or package path an expression refers to (through the imports), or None"""
        if isinstance(e, ast.Attribute):
            b = self.dotted(m, e.value, fn)
            return None if b is None else b + "." + e.attr
        if isinstance(e, ast.Name):
            if fn is not None and self.is_local(fn, e.id):
                return None
            if e.id in m.imports:
                return m.imports[e.id]
            if e.id in m.globals:
                return m.mod + "." + e.id
            if hasattr(builtins, e.id):
                return "builtins." + e.id
        return None

    def is_local(self, fn, name):
        f = fn
        while f is not None:
            if name in self.locals_of(f):
                return True
            f = f.outer
        return False

    def locals_of(self, f):
        r = getattr(f, "_locals", None)
        if r is None:
            r = set(f.params)
            glob = set()
            for n in own(f.node):
                for t in targets_of(n):
                    r |= set(names_in_target(t))
                if isinstance(n, (ast.comprehension,)):
                    r |= set(names_in_target(n.target))
                if isinstance(n, ast.ExceptHandler) and n.name:
                    r.add(n.name)
                if isinstance(n, ast.Global):
                    glob |= set(n.names)
                if isinstance(n, FUNC + (ast.ClassDef,)) and n is not f.node:
                    r.add(n.name)
            imported = set()
            for n in own(f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    imported |= {a.asname or a.name.split(".")[0] for a in n.names}
            r = f._locals = r - glob - imported
        return r

    def refs(self, f):
        """functions of the package a function may call or hand on (by name; methods by attribute name)"""
        r = getattr(f, "_refs", None)
        if r is not None:
            return r
        out = set()
        for n in own(f.node, nested=True):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                d = self.dotted(f.mod, n, f)
                out |= self.lookup(d) if d else set()
                if d is None:
                    out |= {g for g in self.byname.get(n.id, []) if g.outer is not None and (g.outer is f or g.outer is f.outer)}
            elif isinstance(n, ast.Attribute):
                d = self.dotted(f.mod, n, f)
                hit = self.lookup(d) if d else set()
                out |= hit
                if not hit and (d is None or d.startswith(self.prog.package)):
                    out |= {g for g in self.byname.get(n.attr, []) if g.cls}
        f._refs = out
        return out

    def lookup(self, d):
        """functions behind a dotted package path"""
        if not d or not d.startswith(self.prog.package):
            return set()
        out = set()
        for f in self.fns:
            if f.outer is None:
                full = f.mod.mod + "." + f.qual
                if full == d or (f.name in ("__init__", "__enter__", "__exit__", "__call__") and full.rsplit(".", 1)[0] == d):
                    out.add(f)
        return out

    def callers(self):
        if self._callers is None:
            c = {f: set() for f in self.fns}
            for f in self.fns:
                for g in self.refs(f):
                    if g is not f:
                        c[g].add(f)
            self._callers = c
        return self._callers

    def enclosing(self, m, node):
        """innermost function containing a node, or None for module level"""
        best = None
        for f in self.fns:
            if f.mod is m and any(x is node for x in ast.walk(f.node)):
                if best is None or any(x is f.node for x in ast.walk(best.node)):
                    best = f
        return best


def own(node, nested=False):
    """nodes of a function body without those of nested functions (unless nested)"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNC + (ast.ClassDef,)) and not nested:
            todo += list(n.decorator_list)
            if isinstance(n, FUNC):
                todo += n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        todo += list(ast.iter_child_nodes(n))


def parents(tree):
    p = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def at(m, n):
    return "%s:%d" % (m.path, getattr(n, "lineno", 0))
