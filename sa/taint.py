"""Where values end up: which of them reach calls given to watch for.

A value is a set of tags: ("src", text) comes from a source, ("par", f, i) is
parameter i of function f, ("inst", c) an instance of package class c,
("ref", kind, name) a function or class, and ("ns", text) a namespace (what
globals(), vars() or __dict__ are).  Functions are summarised by their
parameters, so each call is looked at with its own arguments; fields are told
apart by name only.  Names and containers hold what is put into them.  What a
test for membership or equality in something else lets through has only what
that other thing has.
"""

import ast
import builtins

from .loader import ClassInfo, FuncInfo, PropInfo

NONE = frozenset()
CLEAN_CALLS = {
    "builtins." + x for x in
    "len int float bool complex hash id isinstance issubclass callable type range any all "
    "hasattr print super object slice ord round divmod".split()
} | {"numpy.prod", "numpy.isscalar", "numpy.ndim", "numpy.size", "numpy.shape", "operator.index"}
CLEAN_ATTRS = {"shape", "size", "ndim", "itemsize", "nbytes", "__class__", "__len__"}
CONTAINER_METHODS = set()
for _t in (dict, list, tuple, set, str, bytes, bytearray, frozenset):
    CONTAINER_METHODS |= set(dir(_t))
PICKED = {"get", "pop", "index", "count", "__getitem__", "__contains__", "setdefault",
          "startswith", "endswith", "remove", "discard", "isdisjoint", "issubset", "issuperset"}
PUTTING = {"append", "extend", "insert", "add", "update", "setdefault", "__setitem__", "union",
           "appendleft", "extendleft", "push", "put", "intersection_update", "writelines"}
HOLDING = {"builtins." + x for x in (
    "dict list tuple set frozenset zip map filter iter next reversed sorted enumerate min max vars staticmethod "
    "classmethod property").split()} | {
    "functools.partial", "functools.wraps", "functools.lru_cache", "functools.cache", "copy.copy", "copy.deepcopy",
    "itertools.chain", "itertools.product", "itertools.dropwhile", "itertools.takewhile", "itertools.filterfalse",
    "itertools.islice", "itertools.cycle", "itertools.repeat", "collections.OrderedDict", "collections.defaultdict",
    "collections.deque", "collections.ChainMap", "types.MappingProxyType"}
IMPORTS = {"importlib.import_module", "builtins.__import__", "importlib.__import__"}
NUMBERS = {"int", "float", "bool", "complex"}


def flows(tags):
    return frozenset(t for t in tags if t[0] in ("src", "par"))


class Summary:
    def __init__(self):
        self.ret = NONE
        self.fields = {}
        self.globals = {}
        self.muts = {}
        self.sinks = {}

    def state(self):
        return (self.ret,) + tuple(
            frozenset(x.items()) for x in (self.fields, self.globals, self.muts, self.sinks))


def add(d, k, tags):
    d[k] = d.get(k, NONE) | tags


class Flow:
    """rules: object with source(flow, f, i, param) → text or None, made(dotted)
    → text or None for results of external calls, and sink(dotted, args, kw)
    → indices/names of the arguments that matter, or None."""

    def __init__(self, prog, rules):
        self.prog = prog
        self.rules = rules
        self.sums = {}
        self.fields = {}
        self.globals = {}
        self.found = {}      # (function, sink, line) → (text, tags)
        self.watched = {}    # every site looked at
        self.calls = set()
        self.funcs = {}
        self.cells = {}
        self.encl = {}
        self.methods = {}
        self.props = {}
        for q, f in prog.funcs.items():
            self.funcs[q] = f
        for q, c in prog.classes.items():
            for n, m in c.members.items():
                if isinstance(m, PropInfo):
                    self.props.setdefault(n, []).append((c, m))
                elif isinstance(m, tuple) and m[0] == "fn":
                    self.methods.setdefault(n, []).append((c, m[1]))
        self.up = {q: self._bases(c) for q, c in prog.classes.items()}

    # -- classes ------------------------------------------------------------
    def _bases(self, c, seen=()):
        out = {c.qual}
        for b in c.bases:
            for k in self.named(c.module, b):
                if k not in seen:
                    out |= self._bases(self.prog.classes[k], seen + (c.qual,))
        return out

    def named(self, module, node):
        """Quals of package classes an expression or annotation mentions."""
        out = []
        if node is None:
            return out
        for n in ast.walk(node):
            name = None
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                try:
                    out += self.named(module, ast.parse(n.value, mode="eval").body)
                except SyntaxError:
                    pass
                continue
            if isinstance(n, ast.Name):
                name = self.top(module, n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                b = self.top(module, n.value.id)
                for t in b:
                    if t[0] == "mod":
                        name = self.top(self.prog.modules[t[1]], n.attr)
            for t in name or ():
                if t[0] == "ref" and t[1] == "cls":
                    out.append(t[2])
        return out

    def related(self, a, b):
        return b in self.up.get(a, ()) or a in self.up.get(b, ())

    # -- names --------------------------------------------------------------
    def top(self, module, name, seen=()):
        """Tags of a module level name, without its value's flow."""
        b = module.ns.get(name)
        if b is None or (module.name, name) in seen:
            return NONE
        if b[0] == "fn":
            return frozenset([("ref", "fn", b[1].qual)])
        if b[0] == "cls":
            return frozenset([("ref", "cls", b[1].qual)])
        if b[0] == "ext":
            return frozenset([("ref", "ext", b[1])])
        if b[0] == "mod":
            return frozenset([("mod", b[1])])
        if b[0] == "from":
            return self.top(self.prog.modules[b[1]], b[2], seen + ((module.name, name),)) | \
                self.globals.get((b[1], b[2]), NONE)
        return self.globals.get((module.name, name), NONE)

    # -- running ------------------------------------------------------------
    def solve(self, rounds=40):
        for n in range(rounds):
            before = (dict(self.fields), dict(self.globals), {q: s.state() for q, s in self.sums.items()},
                      {q: dict(c) for q, c in self.cells.items()})
            for m in list(self.prog.modules.values()):
                Body(self, m, None).top_level()
            for q in list(self.funcs):
                self.summarise(q)
            now = (self.fields, self.globals, {q: s.state() for q, s in self.sums.items()}, self.cells)
            if before == now:
                return True
        return False

    def summarise(self, q):
        f = self.funcs[q]
        b = Body(self, f.module, f)
        b.function()
        old = self.sums.setdefault(q, Summary())
        s = b.out
        old.ret |= s.ret
        for a, c in ((old.fields, s.fields), (old.globals, s.globals), (old.muts, s.muts), (old.sinks, s.sinks)):
            for k, v in c.items():
                add(a, k, v)
        for k, v in s.fields.items():
            v = frozenset(t for t in v if t[0] != "par")
            if v:
                add(self.fields, k, v)
        for k, v in s.globals.items():
            v = frozenset(t for t in v if t[0] != "par")
            if v:
                add(self.globals, k, v)

    def report(self, where, what, line, tags):
        src = sorted(t[1] for t in tags if t[0] == "src")
        if src:
            add(self.found, (where, what, line), frozenset(src))


class Body:
    """One walk over a function's or a module's statements."""

    def __init__(self, flow, module, func):
        self.flow = flow
        self.module = module
        self.func = func
        self.out = Summary()
        self.snap = []
        self.loops = []
        self.qual = func.qual if func else module.name

    # -- entry points ---------------------------------------------------------
    def top_level(self):
        self.block(self.module.tree.body, {})
        for k, v in self.out.globals.items():
            add(self.flow.globals, k, frozenset(t for t in v if t[0] != "par"))
        for k, v in self.out.fields.items():
            add(self.flow.fields, k, frozenset(t for t in v if t[0] != "par"))

    def function(self):
        f = self.func
        a = f.node.args
        env = {}
        args = a.posonlyargs + a.args
        allp = [(p, i) for i, p in enumerate(args)]
        n = len(args)
        for p in a.kwonlyargs:
            allp.append((p, p.arg))
        if a.vararg:
            allp.append((a.vararg, "*"))
        if a.kwarg:
            allp.append((a.kwarg, "**"))
        for p, i in allp:
            tags = {("par", f.qual, i)}
            for c in self.flow.named(self.module, p.annotation):
                tags.add(("inst", c))
            if i == 0 and f.cls is not None and f.kind == "plain":
                # What an object holds is kept by its fields.
                tags = {("inst", f.cls.qual)}
            if i == 0 and f.cls is not None and f.kind == "class":
                tags.add(("ref", "cls", f.cls.qual))
            text = self.flow.rules.source(self.flow, f, i, p)
            if text:
                tags.add(("src", text))
            env[p.arg] = frozenset(tags)
        for p, d in list(zip(args[n - len(a.defaults):], a.defaults)) + [
            (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]:
            env[p.arg] |= self.ev(d, {})
        if isinstance(f.node, ast.Lambda):
            self.out.ret |= self.ev(f.node.body, env)
        else:
            self.block(f.body, env)

    # -- statements -----------------------------------------------------------
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a == b:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, NONE) | v
        return out

    def block(self, body, env):
        for s in body:
            if env is None:
                break
            for k in self.snap:
                k.append(dict(env))
            env = self.stmt(s, env)
        if env is not None:
            for k in self.snap:
                k.append(dict(env))
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(
                s.value, (ast.Tuple, ast.List)
            ) and len(s.targets[0].elts) == len(s.value.elts) and not any(
                isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts
            ):
                vals = [self.ev(x, env) for x in s.value.elts]
                for t, v in zip(s.targets[0].elts, vals):
                    self.assign(t, v, env)
            else:
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, env)
                for c in self.flow.named(self.module, s.annotation):
                    v |= {("inst", c)}
                self.assign(s.target, v, env)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, env)
            self.assign(s.target, old | self.ev(s.value, env), env)
        elif isinstance(s, (ast.Return,)):
            if s.value is not None:
                self.out.ret |= self.ev(s.value, env)
            return None
        elif isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, env)
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a = self.block(s.body, self.refine(s.test, dict(env), True))
            b = self.block(s.orelse, self.refine(s.test, dict(env), False))
            return self.join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, env)
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(env)
            return None
        elif isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            snaps = []
            self.snap.append(snaps)
            e = self.block(s.body, dict(env))
            self.snap.pop()
            start = None
            for x in snaps or [env]:
                start = self.join(start, x)
            if e is not None:
                e = self.block(s.orelse, e)
            for h in s.handlers:
                he = dict(start)
                if h.type is not None:
                    self.ev(h.type, he)
                if h.name:
                    he[h.name] = NONE
                e = self.join(e, self.block(h.body, he))
            if s.finalbody:
                if e is None:
                    self.block(s.finalbody, dict(start))
                else:
                    e = self.block(s.finalbody, e)
            return e
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                v |= self.method("__enter__", v, [], {}, s, env, known=True)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            return self.block(s.body, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.define(s, env)
        elif isinstance(s, ast.ClassDef):
            if self.func is not None or self.module.ns.get(s.name) is None:
                env[s.name] = NONE
            sub = dict(env)
            self.block([x for x in s.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))], sub)
            for x in s.body:
                if isinstance(x, (ast.Assign, ast.AnnAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and sub.get(t.id):
                            for q, c in self.flow.prog.classes.items():
                                if c.node is s:
                                    add(self.out.fields, (q, t.id), sub[t.id])
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for k, b in self.flow.prog.import_bindings(self.module, s).items():
                m = type("M", (), {"ns": {k: b}, "name": self.module.name})
                if self.func is not None:
                    env[k] = self.flow.top(m, k)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
            return self.refine(s.test, env, True)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    self.ev(t, env)
        elif isinstance(s, getattr(ast, "Match", ())):
            v = self.ev(s.subject, env)
            out = dict(env)
            for c in s.cases:
                ce = dict(env)
                fixed = all(isinstance(p, (ast.MatchValue, ast.MatchSingleton, ast.MatchOr))
                            for p in ast.walk(c.pattern) if isinstance(p, ast.pattern))
                for p in ast.walk(c.pattern):
                    for n in ("name", "rest"):
                        if isinstance(getattr(p, n, None), str):
                            ce[getattr(p, n)] = v
                if fixed and isinstance(s.subject, ast.Name):
                    ce[s.subject.id] = NONE
                if c.guard is not None:
                    self.ev(c.guard, ce)
                    ce = self.refine(c.guard, ce, True)
                out = self.join(out, self.block(c.body, ce))
            return out
        return env

    def loop(self, s, env):
        brk = []
        cur = dict(env)
        for _ in range(12):
            before = dict(cur)
            self.loops.append([])
            e = dict(cur)
            if isinstance(s, ast.While):
                self.ev(s.test, e)
                e = self.refine(s.test, e, True)
            else:
                v = self.ev(s.iter, e)
                v |= self.method("__iter__", v, [], {}, s, e, known=True)
                self.assign(s.target, v, e)
            e = self.block(s.body, e)
            outs = self.loops.pop()
            brk = outs
            for x in outs:
                cur = self.join(cur, x)
            cur = self.join(cur, e)
            if cur == before:
                break
        if isinstance(s, ast.While):
            cur = self.refine(s.test, cur, False)
        return self.join(self.block(s.orelse, dict(cur)), cur)

    def define(self, s, env):
        if self.func is None:
            for d in s.decorator_list:
                self.ev(d, env)
            return
        q = self.qual + ".<locals>." + s.name
        self.nest(q, s, env)
        env[s.name] = frozenset([("ref", "fn", q)])

    def nest(self, q, node, env):
        fl = self.flow
        if q not in fl.funcs or fl.funcs[q].node is not node:
            fl.funcs[q] = FuncInfo(node, self.module, q)
        fl.encl[q] = self.qual
        c = fl.cells.setdefault(q, {})
        for k, v in env.items():
            if v:
                c[k] = c.get(k, NONE) | v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if self.func is None or t.id in self.func.globals:
                add(self.out.globals, (self.module.name, t.id), v)
            if self.func is not None and t.id in self.func.nonlocals:
                v |= env.get(t.id, NONE)
                e = self.flow.encl.get(self.qual)
                for q, c in self.flow.cells.items():
                    if e is not None and (q == e or self.flow.encl.get(q) == e):
                        c[t.id] = c.get(t.id, NONE) | v
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value, env)
            self.store(r, t.attr, v, t.value, env)
            for c, p in self.flow.props.get(t.attr, ()):
                if p.fset is not None and self.fits(r, c):
                    self.apply(p.fset, [r, v], {}, t)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice, env)
            r = self.ev(t.value, env)
            self.named_access(r, k, t, "setting a name of")
            self.put(t.value, flows(k) | v, env)

    def store(self, r, attr, v, root, env):
        """A field is set: kept by its class, or held by the value itself."""
        owners = [x[1 if x[0] == "inst" else 2] for x in r if x[0] == "inst" or x[:2] == ("ref", "cls")]
        for c in owners:
            add(self.out.fields, (c, attr), v)
        if not owners and root is not None:
            self.put(root, flows(v), env)

    def load(self, v, attr):
        insts = [x[1 if x[0] == "inst" else 2] for x in v if x[0] == "inst" or x[:2] == ("ref", "cls")]
        if not insts:
            return NONE
        out = NONE
        for d in (self.flow.fields, self.out.fields):
            for (c, a), tags in d.items():
                if a == attr and any(self.flow.related(i, c) for i in insts):
                    out |= tags
        return out

    def put(self, root, tags, env):
        """Something with the tags is put into what root is."""
        if isinstance(root, ast.Name):
            if root.id in env:
                for t in env[root.id]:
                    if t[0] == "par" and t[1] == self.qual:
                        add(self.out.muts, t[2], tags)
                env[root.id] = env[root.id] | tags
            elif self.module.ns.get(root.id, ("",))[0] == "val":
                add(self.out.globals, (self.module.name, root.id), tags)
        elif isinstance(root, ast.Attribute):
            self.store(self.ev(root.value, env), root.attr, tags, root.value, env)
        elif isinstance(root, ast.Subscript):
            self.put(root.value, tags, env)
        elif isinstance(root, ast.Call) and isinstance(root.func, ast.Attribute):
            self.put(root.func.value, tags, env)

    # -- tests ------------------------------------------------------------------
    def refine(self, test, env, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, env, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for x in test.values:
                    env = self.refine(x, env, truth)
            return env
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.value, env, truth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, a, b = test.ops[0], test.left, test.comparators[0]
            pairs = []
            if isinstance(op, (ast.In, ast.NotIn)) and truth == isinstance(op, ast.In):
                pairs = [(a, b)]
            elif isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)) and truth == isinstance(op, (ast.Eq, ast.Is)):
                pairs = [(a, b), (b, a)]
            for x, y in pairs:
                if isinstance(x, ast.NamedExpr):
                    x = x.target
                if isinstance(x, ast.Name) and x.id in env:
                    other = self.ev(y, env)
                    if any(t[0] == "ns" for t in other):
                        continue
                    if flows(env[x.id]) and not flows(other) >= flows(env[x.id]):
                        env[x.id] = other
        if truth and isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and (
            test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name)
        ):
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            if all(isinstance(t, ast.Name) and t.id in NUMBERS for t in ts):
                env[test.args[0].id] = NONE
        return env

    # -- expressions --------------------------------------------------------------
    def ev(self, n, env):
        k = type(n)
        if k is ast.Constant:
            return NONE
        if k is ast.Name:
            return self.name(n.id, env)
        if k is ast.Attribute:
            return self.attribute(n, env)
        if k is ast.Call:
            return self.call(n, env)
        if k is ast.Subscript:
            v = self.ev(n.value, env)
            i = self.ev(n.slice, env)
            self.named_access(v, i, n, "looking a name up in")
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                for t in v:
                    if t == ("ns", "sys.modules"):
                        return self.imported(n.slice.value)
                    if t[0] == "ns":
                        return frozenset(t for t in v if t[0] != "ns") | self.name(n.slice.value, env) | (
                            frozenset([("ref", "ext", "builtins." + n.slice.value)]) if hasattr(builtins, n.slice.value) else NONE)
            v |= self.method("__getitem__", v, [i], {}, n, env, known=True)
            return frozenset(t for t in v if t[0] != "ns")
        if k is ast.Compare:
            self.ev(n.left, env)
            for c in n.comparators:
                self.ev(c, env)
            return NONE
        if k is ast.BoolOp:
            out = NONE
            e = dict(env)
            for x in n.values:
                out |= self.ev(x, e)
                e = self.refine(x, e, isinstance(n.op, ast.And))
            return out
        if k is ast.IfExp:
            self.ev(n.test, env)
            return self.ev(n.body, self.refine(n.test, dict(env), True)) | self.ev(
                n.orelse, self.refine(n.test, dict(env), False))
        if k is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.assign(n.target, v, env)
            return v
        if k is ast.Lambda:
            q = "%s.<lambda:%d:%d>" % (self.qual, n.lineno, n.col_offset)
            self.nest(q, n, env)
            return frozenset([("ref", "fn", q)])
        if k in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e = dict(env)
            for g in n.generators:
                self.assign(g.target, self.ev(g.iter, e), e)
                for c in g.ifs:
                    self.ev(c, e)
                    e = self.refine(c, e, True)
            if k is ast.DictComp:
                return self.ev(n.key, e) | self.ev(n.value, e)
            return self.ev(n.elt, e)
        if k in (ast.Yield, ast.YieldFrom, ast.Await):
            v = self.ev(n.value, env) if n.value is not None else NONE
            self.out.ret |= v
            return v
        out = NONE
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                out |= self.ev(c, env)
        return out

    def name(self, name, env):
        if name in env:
            return env[name]
        q = self.qual
        while q in self.flow.cells:
            c = self.flow.cells[q]
            if name in c:
                return c[name]
            q = self.flow.encl.get(q)
        if name in self.module.ns:
            return self.flow.top(self.module, name) | self.flow.globals.get((self.module.name, name), NONE)
        if (self.module.name, name) in self.flow.globals:
            return self.flow.globals[(self.module.name, name)]
        if name == "__builtins__":
            return frozenset([("ns", "__builtins__")])
        if hasattr(builtins, name):
            return frozenset([("ref", "ext", "builtins." + name)])
        return NONE

    def imported(self, name):
        """What a module imported by a constant name is."""
        if name in self.flow.prog.modules:
            return frozenset([("mod", name)])
        return frozenset([("ref", "ext", name)])

    def fits(self, tags, c):
        insts = [t[1] for t in tags if t[0] == "inst"]
        return not insts or any(self.flow.related(i, c.qual) for i in insts)

    def attribute(self, n, env):
        v = self.ev(n.value, env)
        out = set()
        several = sum(1 for t in v if t[0] == "ref") > 2
        for t in v:
            if t[0] == "ref" and t[1] == "ext" and t[2].count(".") < (1 if several else 3):
                d = t[2] + "." + n.attr
                out.add(("ns", d) if d == "sys.modules" else ("ref", "ext", d))
            elif t[0] == "mod":
                m = self.flow.prog.modules[t[1]]
                out |= self.flow.top(m, n.attr)
                if t[1] + "." + n.attr in self.flow.prog.modules:
                    out.add(("mod", t[1] + "." + n.attr))
            elif t[0] == "ref" and t[1] == "cls":
                for c, f in self.flow.methods.get(n.attr, ()):
                    if self.flow.related(t[2], c.qual):
                        out.add(("ref", "fn", f.qual))
        if n.attr == "__dict__":
            return frozenset([("ns", "__dict__")])
        if n.attr in CLEAN_ATTRS:
            return frozenset(out)
        out |= flows(v) | frozenset(t for t in v if t[0] == "dyn")
        out |= self.load(v, n.attr)
        for c, p in self.flow.props.get(n.attr, ()):
            if p.fget is not None and self.fits(v, c):
                out |= self.apply(p.fget, [v], {}, n)
        if any(t[0] == "inst" for t in v):
            for c, f in self.flow.methods.get(n.attr, ()):
                if self.fits(v, c):
                    out.add(("ref", "fn", f.qual))
        return frozenset(out)

    def named_access(self, v, i, n, how):
        for t in v:
            if t[0] == "ns":
                self.sink("%s %s" % (how, t[1]), n, i)

    # -- calls ----------------------------------------------------------------------
    def sink(self, what, n, tags):
        key = (self.qual, what, getattr(n, "lineno", 0))
        self.flow.watched[key] = True
        self.flow.report(*key, tags)
        par = frozenset(t for t in tags if t[0] == "par")
        if par:
            add(self.out.sinks, key, par)

    def apply(self, f, args, kw, n, star=NONE):
        """Calls package function f: its summary with the arguments' tags."""
        s = self.flow.sums.get(f.qual)
        if s is None:
            return NONE
        names = f.params
        bound = {}
        for i, a in enumerate(args):
            if i < len(names):
                add(bound, i, a)
            elif f.vararg:
                add(bound, "*", a)
        for k, a in kw.items():
            if k in names:
                add(bound, names.index(k), a)
            elif k in f.kwonly:
                add(bound, k, a)
            elif f.kwarg:
                add(bound, "**", a)
        if star:
            for i in list(range(len(names))) + f.kwonly + ["*", "**"]:
                if i not in bound:
                    add(bound, i, star)

        def subst(tags):
            out = set()
            for t in tags:
                if t[0] == "par" and t[1] == f.qual:
                    out |= bound.get(t[2], NONE)
                else:
                    out.add(t)
            return frozenset(out)

        for k, v in s.fields.items():
            v = subst(frozenset(t for t in v if t[0] == "par"))
            if v:
                add(self.out.fields, k, v)
        for k, v in s.globals.items():
            v = subst(frozenset(t for t in v if t[0] == "par"))
            if v:
                add(self.out.globals, k, v)
        for key, v in s.sinks.items():
            v = subst(v)
            self.flow.report(*key, v)
            par = frozenset(t for t in v if t[0] == "par" and t[1] != f.qual)
            if par:
                add(self.out.sinks, key, par)
        self.pending = {i: subst(v) for i, v in s.muts.items()}
        return subst(s.ret)

    def call(self, n, env):
        fl = self.flow
        fl.calls.add((self.qual, n.lineno, n.col_offset))
        args, kw, star = [], {}, NONE
        for a in n.args:
            if isinstance(a, ast.Starred):
                star |= self.ev(a.value, env)
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star |= v
            else:
                kw[k.arg] = v
        self.pending = {}
        recv = None
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value, env)
        callee = self.ev(n.func, env)
        out = NONE
        refs = [t for t in callee if t[0] == "ref"]
        every = star
        for a in args + list(kw.values()):
            every |= a
        fns = []
        for t in refs:
            if t[1] == "ext":
                out |= self.ext(t[2], args, kw, star, every, n, env)
            elif t[1] == "cls":
                out |= {("inst", t[2])}
                c = fl.prog.classes[t[2]]
                inits = [f for k, f in fl.methods.get("__init__", ()) if k.qual in fl.up[c.qual]]
                for f in inits:
                    self.apply(f, [frozenset([("inst", t[2])])] + args, kw, n, star)
                if not inits:
                    names = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign)
                             and isinstance(x.target, ast.Name)]
                    for k, v in list(zip(names, args)) + list(kw.items()):
                        add(self.out.fields, (c.qual, k), v)
                    out |= flows(every)
            else:
                f = fl.funcs.get(t[2])
                if f is not None:
                    fns.append(f)
        supers = isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(
            n.func.value.func, ast.Name) and n.func.value.func.id == "super"
        if recv is not None:
            if supers and self.func is not None and self.func.cls is not None:
                recv = frozenset([("inst", self.func.cls.qual)])
            classref = any(t[0] == "mod" or (t[0] == "ref" and t[1] in ("cls", "ext")) for t in recv)
            methods = [f for f in fns if f.cls is not None]
            plain = [f for f in fns if f.cls is None]
            for f in plain:
                out |= self.apply(f, args, kw, n, star)
                self.take(plain, n.args, env)
            for f in methods:
                if classref and f.kind == "plain":
                    out |= self.apply(f, args, kw, n, star)
                    self.take(methods, n.args, env)
            if not classref or not refs:
                out |= self.method(n.func.attr, recv, args, kw, n, env, star=star)
                self.take([], n.args, env, shift=1)
                if n.func.attr in PUTTING:
                    self.put(n.func.value, flows(every), env)
            elif any(f.kind != "plain" for f in methods):
                out |= self.method(n.func.attr, recv, args, kw, n, env, star=star)
        else:
            for f in fns:
                out |= self.apply(f, args, kw, n, star)
                self.take(fns, n.args, env)
            if any(t[0] == "dyn" for t in callee):
                self.sink("something imported by name", n, every)
            if not refs:
                # A value that's called: what it has was made from its arguments.
                out |= flows(callee) | flows(every)
        return out

    def take(self, fns, nodes, env, shift=0):
        """What the function called has put into its arguments."""
        for i, v in (self.pending or {}).items():
            if isinstance(i, int) and 0 <= i - shift < len(nodes):
                self.put(nodes[i - shift], v, env)
        self.pending = {}

    def method(self, name, recv, args, kw, n, env, star=NONE, known=False):
        """A method of a value: of package classes it may be an instance of."""
        fl = self.flow
        out = set()
        insts = [t[1] for t in recv if t[0] == "inst"]
        every = star
        for a in args + list(kw.values()):
            every |= a
        cands = []
        for c, f in fl.methods.get(name, ()):
            if insts:
                if any(fl.related(i, c.qual) for i in insts):
                    cands.append(f)
            elif not known and name not in CONTAINER_METHODS:
                cands.append(f)
        for f in cands:
            a = args if f.kind == "static" else [recv] + args
            out |= self.apply(f, a, kw, n, star)
        if known:
            return frozenset(out)
        if any(t[0] == "dyn" for t in recv):
            self.sink("%s() of something imported by name" % name, n, every)
        what = fl.rules.method(name, args, kw)
        if what is not None:
            text, tags = what
            if tags == "receiver":
                tags = recv
            self.sink(text, n, tags)
        if any(t[0] == "ns" for t in recv) and args and name in PICKED:
            self.named_access(recv, args[0], n, "looking a name up in")
        made = fl.rules.method_made(name, recv)
        if made:
            out.add(("src", made))
        base = frozenset(t for t in recv if t[0] != "ns" and not (t[0] == "inst" and cands))
        if name in ("items", "keys", "values", "copy", "get", "pop", "__getitem__", "popitem", "setdefault", "union"):
            out |= base
        else:
            out |= flows(base)
        if name in PICKED:
            for a in args[1:]:
                out |= a
        elif not cands:
            out |= flows(every)
        self.give(every, every, n)
        return frozenset(out)

    def give(self, refs, tags, n):
        """Functions given to something unknown may be called with the rest."""
        tags = flows(tags)
        out = NONE
        for t in refs:
            if t[0] == "ref" and t[1] == "fn":
                f = self.flow.funcs.get(t[2])
                if f is not None:
                    out |= self.apply(f, [tags] * len(f.params), {}, n)
                    self.pending = {}
            elif t[0] == "ref" and t[1] == "ext" and self.flow.rules.sink(t[2], [NONE], {}, None) is not None:
                self.sink(t[2], n, tags)
        return out

    def ext(self, d, args, kw, star, every, n, env):
        rules = self.flow.rules
        s = rules.sink(d, args, kw, n)
        if s is not None:
            tags = NONE
            for i in s:
                if i == "*":
                    tags |= every
                elif isinstance(i, int) and i < len(args):
                    tags |= args[i]
                elif i in kw:
                    tags |= kw[i]
            if star:
                tags |= star
            self.sink(d, n, tags)
        given = self.give(every, every, n)
        if d in IMPORTS:
            nm = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "name"), None)
            if isinstance(nm, ast.Constant) and isinstance(nm.value, str):
                return self.imported(nm.value.split(".")[0] if d == "builtins.__import__" else nm.value)
            return frozenset([("dyn", d)])
        if d in ("builtins.globals", "builtins.locals", "builtins.vars", "builtins.dir", "inspect.getmembers"):
            return frozenset([("ns", d.split(".")[1] + "()")])
        if d in ("builtins.getattr",) and len(args) > 1:
            out = flows(args[0]) | (args[2] if len(args) > 2 else NONE)
            nm = n.args[1] if len(n.args) > 1 else None
            if isinstance(nm, ast.Constant) and isinstance(nm.value, str):
                out |= self.ev(ast.copy_location(ast.Attribute(n.args[0], nm.value, ast.Load()), n), env)
            return out
        if d in ("builtins.setattr",) and len(args) > 2:
            nm = n.args[1] if len(n.args) > 1 else None
            if isinstance(nm, ast.Constant):
                self.assign(ast.copy_location(ast.Attribute(n.args[0], nm.value, ast.Store()), n), args[2], env)
            return NONE
        made = rules.made(d)
        if made:
            return frozenset([("src", made)])
        if d in CLEAN_CALLS:
            return NONE
        if d.split(".")[-1] in PICKED and d.count(".") >= 2 and args:
            # A method of an external module's table.
            return frozenset(t for a in args[1:] for t in a)
        if d in HOLDING:
            return frozenset(t for t in every if t[0] != "ns") | given
        return flows(every) | given
