"""Loads the source of the analysed package (never imports or runs it)."""

import ast
import os


class AnalysisBroken(Exception):
    """The analysed program no longer has a public anchor the rules need."""


class FuncInfo:
    def __init__(self, node, module, qual, cls=None, kind="plain"):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls
        self.kind = kind
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = a.defaults
        self.kw_defaults = a.kw_defaults
        self.is_gen = False
        self.locals = set(self.params + self.kwonly)
        for v in (self.vararg, self.kwarg):
            if v:
                self.locals.add(v)
        self.globals = set()
        self.nonlocals = set()
        if isinstance(node, ast.Lambda):
            self.body = None
        else:
            self.body = node.body
            self._scan(node.body)
        self.locals -= self.globals | self.nonlocals

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def _scan(self, body):
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
                stack.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # Their targets are local to them, but a walrus is not.
                for m in ast.walk(n):
                    if isinstance(m, ast.NamedExpr):
                        self.locals.add(m.target.id)
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
            if isinstance(n, ast.MatchMapping) and n.rest:
                self.locals.add(n.rest)
            stack.extend(ast.iter_child_nodes(n))


class PropInfo:
    def __init__(self, name):
        self.name = name
        self.fget = self.fset = self.fdel = None


class ClassInfo:
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.name = node.name
        self.bases = node.bases
        self.members = {}
        self.attrs = {}
        self.dataclass = any(
            "dataclass" in ast.dump(d) for d in node.decorator_list
        )


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.ns = {}


def decorator_names(node):
    out = []
    for d in node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name):
            parts.append(e.id)
        out.append(".".join(reversed(parts)))
    return out


class Program:
    """All modules of the package below ``root`` (e.g. /repo/src)."""

    def __init__(self, root, package="hdf5storage", overrides=None):
        self.root = root
        self.package = package
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.files = []
        pkg = os.path.join(root, package)
        if not os.path.isdir(pkg):
            raise AnalysisBroken("package directory %s not found" % pkg)
        for d, ds, fs in sorted(os.walk(pkg)):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self._load(rel, path, (overrides or {}).get(path))
        for m in self.modules.values():
            self._bind(m)
            m.mutated = self._mutated(m)

    def add_driver(self, name, text):
        """Adds a module of a rule's own that uses the package."""
        if name not in self.modules:
            m = self.modules[name] = Module(name, "<%s>" % name, ast.parse(text))
            self._bind(m)
            m.mutated = set()
        return name

    def _load(self, name, path, text=None):
        if text is None:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        tree = ast.parse(text, path)
        self.files.append(path)
        self.modules[name] = Module(name, path, tree)

    MUTATORS = {
        "append", "extend", "insert", "remove", "pop", "clear", "sort",
        "reverse", "add", "update", "discard", "setdefault", "popitem",
        "difference_update", "intersection_update",
    }

    def _mutated(self, m):
        """Module level names whose value changes after their assignment."""
        out = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out.update(n.names)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in self.MUTATORS and isinstance(n.func.value, ast.Name):
                    out.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name):
                    out.add(n.value.id)
        seen = set()
        for s in m.tree.body:
            if isinstance(s, (ast.AugAssign,)) and isinstance(s.target, ast.Name):
                out.add(s.target.id)
        # Names that are local to the functions mutating them aren't meant.
        local = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        local.add(x.id)
                for x in n.args.args + n.args.kwonlyargs:
                    local.add(x.arg)
        glob = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                glob.update(n.names)
        return (out - local) | glob

    # -- binding of module level names ------------------------------------
    def _bind(self, m):
        self._bind_block(m, m.tree.body)

    def _bind_block(self, m, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(m, s).items():
                    m.ns[k] = v
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.ns[s.name] = self._func(m, s)
            elif isinstance(s, ast.ClassDef):
                m.ns[s.name] = ("cls", self._class(m, s))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._bind_target(m, t, s.value)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self._bind_target(m, s.target, s.value)
            elif isinstance(s, ast.If):
                self._bind_block(m, s.orelse)
                self._bind_block(m, s.body)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._bind_block(m, h.body)
                self._bind_block(m, s.body)
                self._bind_block(m, s.orelse)
                self._bind_block(m, s.finalbody)
            elif isinstance(s, ast.With):
                self._bind_block(m, s.body)

    def _bind_target(self, m, t, value):
        if isinstance(t, ast.Name):
            m.ns[t.id] = ("val", value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    if isinstance(value, (ast.Tuple, ast.List)) and len(
                        value.elts
                    ) == len(t.elts):
                        m.ns[e.id] = ("val", value.elts[i])
                    else:
                        sub = ast.copy_location(
                            ast.Subscript(value, ast.Constant(i), ast.Load()), value
                        )
                        ast.fix_missing_locations(sub)
                        m.ns[e.id] = ("val", sub)

    def import_bindings(self, m, s):
        out = {}
        if isinstance(s, ast.Import):
            for al in s.names:
                top = al.name.split(".")[0]
                if al.asname:
                    out[al.asname] = self._modref(al.name)
                else:
                    out[top] = self._modref(top)
            return out
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")
            is_pkg = os.path.basename(m.path) == "__init__.py"
            drop = s.level - (1 if is_pkg else 0)
            parts = parts[: len(parts) - drop] if drop else parts
            base = ".".join(parts + ([s.module] if s.module else []))
        for al in s.names:
            name = al.asname or al.name
            full = base + "." + al.name
            if full in self.modules:
                out[name] = ("mod", full)
            elif base in self.modules:
                out[name] = ("from", base, al.name)
            else:
                out[name] = ("ext", full)
        return out

    def _modref(self, name):
        if name in self.modules:
            return ("mod", name)
        return ("ext", name)

    def _func(self, m, node, cls=None, prefix=None):
        qual = (prefix or (cls.qual if cls else m.name)) + "." + node.name
        while qual in self.funcs:
            qual += "'"
        decs = decorator_names(node)
        kind = "plain"
        other = []
        for d, n in zip(decs, node.decorator_list):
            if d == "staticmethod":
                kind = "static"
            elif d == "classmethod":
                kind = "class"
            else:
                other.append((d, n))
        fi = FuncInfo(node, m, qual, cls, kind)
        fi.decorators = other
        self.funcs[qual] = fi
        return ("fn", fi)

    def _class(self, m, node, prefix=None):
        ci = ClassInfo(node, m, (prefix or m.name) + "." + node.name)
        self.classes[ci.qual] = ci
        for s in node.body:
            self._class_stmt(m, ci, s)
        return ci

    def _class_stmt(self, m, ci, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            decs = decorator_names(s)
            isprop = False
            for d in decs:
                last = d.split(".")[-1]
                if d in ("property", "functools.cached_property", "cached_property", "abc.abstractproperty"):
                    p = PropInfo(s.name)
                    p.fget = self._func(m, s, ci)[1]
                    ci.members[s.name] = p
                    isprop = True
                elif "." in d and last in ("setter", "getter", "deleter"):
                    src = d.rsplit(".", 1)[0].split(".")[-1]
                    old = ci.members.get(src)
                    p = PropInfo(s.name)
                    if isinstance(old, PropInfo):
                        p.fget, p.fset, p.fdel = old.fget, old.fset, old.fdel
                    f = self._func(m, s, ci)[1]
                    if last == "setter":
                        p.fset = f
                    elif last == "getter":
                        p.fget = f
                    else:
                        p.fdel = f
                    f.decorators = []
                    ci.members[s.name] = p
                    isprop = True
            if isprop:
                p = ci.members[s.name]
                for f in (p.fget, p.fset, p.fdel):
                    if f:
                        f.decorators = []
            else:
                ci.members[s.name] = self._func(m, s, ci)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    ci.attrs[t.id] = s.value
                    ci.members.pop(t.id, None)
        elif isinstance(s, ast.AnnAssign):
            if isinstance(s.target, ast.Name):
                ci.attrs[s.target.id] = s.value
        elif isinstance(s, ast.ClassDef):
            ci.attrs[s.name] = None
            sub = self._class(m, s, ci.qual)
            ci.members[s.name] = sub
        elif isinstance(s, ast.If):
            for x in s.orelse + s.body:
                self._class_stmt(m, ci, x)

    # -- anchors -------------------------------------------------------------
    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisBroken("public anchor %s is gone" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken("public anchor %s is gone" % qual)
        return c
