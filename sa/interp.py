"""A forward, path sensitive abstract interpreter for the analysed package.

Dataflow over the syntax tree: the abstract state maps variables and heap
cells to symbolic values (terms) and carries the branch facts known on the
path and the state of the property automaton.  Package functions are
analysed at their call sites (context sensitive), everything else is opaque
unless there is a model for it.  States are joined when their number exceeds
a cap, first only those with the same property state and tracked facts.
"""

import ast
import builtins

from . import models
from .loader import AnalysisBroken, ClassInfo, FuncInfo, PropInfo
from .terms import (
    C, FALSE, NONE, NotConst, T, TRUE, UNBOUND, Term, alts, cval, ext, is_c,
    join_terms, mentions, pyval, show, sym, walk,
)

MAX_STACK = 40
LOOP_PASSES = 2


class Obj:
    """Heap object.  Treated as immutable: changes make a new one."""

    __slots__ = ("kind", "cls", "data", "exact", "lazy", "extra")

    def __init__(self, kind, cls=None, data=None, exact=True, lazy=None, extra=None):
        self.kind = kind
        self.cls = cls
        self.data = data
        self.exact = exact
        self.lazy = lazy
        self.extra = extra

    def with_(self, **kw):
        o = Obj(self.kind, self.cls, self.data, self.exact, self.lazy, self.extra)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def __eq__(self, other):
        return (
            isinstance(other, Obj)
            and self.kind == other.kind
            and self.cls == other.cls
            and self.data == other.data
            and self.exact == other.exact
            and self.extra == other.extra
        )

    __hash__ = None


class State:
    __slots__ = ("vars", "heap", "facts", "p", "n", "trace", "pending")

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.facts = {}
        self.p = {}
        self.n = 0
        self.trace = None
        self.pending = ()

    def fork(self):
        s = State()
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.p = dict(self.p)
        s.n = self.n
        s.trace = self.trace
        s.pending = self.pending
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def note(self, text):
        self.trace = (self.trace, text)

    def history(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


class Frame:
    __slots__ = ("eid", "fi", "module", "yield_cb", "gen_out", "exc", "cls", "genfr")

    def __init__(self, eid, fi, module, cls=None):
        self.eid = eid
        self.fi = fi
        self.module = module
        self.cls = cls
        self.yield_cb = None
        self.gen_out = None
        self.exc = []
        self.genfr = None


class Exc:
    """A raised exception: class term (or None when unknown), value, site."""

    __slots__ = ("cls", "val", "site", "explicit")

    def __init__(self, cls, val, site, explicit):
        self.cls = cls
        self.val = val
        self.site = site
        self.explicit = explicit

    @property
    def name(self):
        if self.cls is None:
            return None
        if self.cls.tag == "ext":
            n = self.cls.args[0]
            return n[len("builtins."):] if n.startswith("builtins.") else n
        if self.cls.tag == "cls":
            return self.cls.args[0].split(".")[-1]
        return None


class Budget(AnalysisBroken):
    pass


class Property:
    """Default hooks; rules override the ones they need."""

    cap = 24
    track_implicit_raises = False
    recursion = 2
    max_stack = MAX_STACK
    opaque = frozenset()
    max_steps = 400000

    def call(self, it, st, fn, args, kw, node, fr):
        return None

    def getattr(self, it, st, base, name, node):
        return None

    def setattr(self, it, st, base, name, val, node):
        return None

    def getitem(self, it, st, base, idx, node):
        return None

    def setitem(self, it, st, base, idx, val, node):
        return None

    def delitem(self, it, st, base, idx, node):
        return None

    def delattr(self, it, st, base, name, node):
        return None

    def aug(self, it, st, target, val, node):
        return None

    def iterate(self, it, st, v, node):
        return None

    def elements(self, it, st, v):
        """Known elements of a value without effects, or None."""
        return None

    def contains(self, it, st, x, coll, node):
        return None

    def decide(self, it, st, atom):
        return None

    def with_enter(self, it, st, v, node):
        return None

    def with_exit(self, it, st, v, kind, node):
        return None

    def raises(self, it, st, exc, node):
        return None

    def may_raise(self, it, st, fn, node):
        return True

    def key(self, it, st):
        return tuple(sorted(st.p.items(), key=lambda kv: kv[0]))

    def unbound(self, it, st, name, node):
        return None

    def field(self, it, st, objterm, name):
        """Initial value of a field of a lazily initialised object."""
        return None

    def type_of(self, it, st, v):
        """Class term of a value, or None."""
        return None

    def compare(self, it, st, op, a, b, node):
        """Result of a comparison (op is the name of the syntax node), or None."""
        return None

    def binop(self, it, st, op, a, b, node):
        return None


def is_bool_atom(t):
    return t.tag in ("cmp", "isinst", "truth", "not", "hasattr")


class Interp:
    def __init__(self, prog, prop=None):
        self.prog = prog
        self.prop = prop or Property()
        self.rcol = []
        self.try_depth = 0
        self.stack = []
        self.steps = 0
        self.modvals = {}
        self.calls_seen = set()
        self.ext_calls = 0
        self.sites = set()
        self.lambdas = {}
        self.unknown = []
        self.unbounds = []

    # ------------------------------------------------------------------ util
    def site(self, node, fr=None):
        mod = fr.module if fr is not None else None
        f = mod.path.split("/")[-1] if mod else "?"
        if mod is not None and f == "__init__.py":
            f = mod.name.replace(".", "/") + "/__init__.py"
        return "%s:%s:%s" % (
            f, getattr(node, "lineno", "?"), getattr(node, "col_offset", "?"))

    def loc(self, node, fr=None):
        fr = fr or (self.frames[-1] if self.frames else None)
        return self.site(node, fr).rsplit(":", 1)[0]

    frames = ()

    def tick(self):
        self.steps += 1
        if self.steps > self.prop.max_steps:
            raise Budget("abstract interpretation step budget exceeded")

    def alloc(self, st, obj, node=None):
        oid = "%d@%s" % (st.fresh(), self.here(node))
        st.heap[oid] = obj
        return T("obj", oid)

    def here(self, node):
        fr = self.frames[-1] if self.frames else None
        return self.site(node, fr) if node is not None else "?"

    def obj(self, st, t):
        if t.tag == "obj":
            return st.heap.get(t.args[0])
        return None

    def put(self, st, t, obj):
        st.heap[t.args[0]] = obj

    # --------------------------------------------------------------- merging
    def merge(self, states, fr=None):
        if len(states) <= 1:
            return states
        cap = self.prop.cap
        if len(states) <= cap:
            return states
        groups = {}
        for s in states:
            k = self.prop.key(self, s)
            groups.setdefault(k, []).append(s)
        return [self.join(g) for g in groups.values()]

    def join(self, g):
        if len(g) == 1:
            return g[0]
        out = State()
        out.n = max(s.n for s in g)
        out.p = dict(g[0].p)
        out.trace = g[0].trace
        out.pending = g[0].pending
        rest = g[1:]
        ov = out.vars = dict(g[0].vars)
        diff = set()
        for s in rest:
            sv = s.vars
            if len(sv) != len(ov) or sv.keys() != ov.keys():
                diff.update(sv.keys() ^ ov.keys())
            for k, v in ov.items():
                if sv.get(k) is not v:
                    diff.add(k)
        for k in diff:
            vals = [s.vars.get(k, UNBOUND) for s in g]
            if isinstance(k, tuple) and k[1] == "<parent>":
                ov[k] = next(v for v in vals if v is not UNBOUND)
            else:
                ov[k] = join_terms(vals)
        keys = set()
        for s in g:
            keys.update(s.heap)
        for k in keys:
            objs = [s.heap[k] for s in g if k in s.heap]
            o = objs[0]
            for x in objs[1:]:
                if x is not o:
                    o = self.join_obj(o, x)
            out.heap[k] = o
        of = dict(g[0].facts)
        for s in rest:
            sf = s.facts
            if sf is of:
                continue
            for a in [a for a, b in of.items() if sf.get(a) is not b]:
                del of[a]
        out.facts = of
        return out

    def join_obj(self, a, b):
        if a is b or a == b:
            return a
        if a.kind != b.kind:
            return Obj("top", exact=False)
        if a.kind == "inst":
            d = {}
            for k in set(a.data) | set(b.data):
                x, y = a.data.get(k, UNBOUND), b.data.get(k, UNBOUND)
                if a.lazy and (x is UNBOUND or y is UNBOUND):
                    base = self.lazy_field(None, a, k)
                    x = base if x is UNBOUND else x
                    y = base if y is UNBOUND else y
                d[k] = x if x is y else join_terms([x, y])
            return a.with_(data=d)
        if a.kind == "dict":
            d = {}
            for k in list(a.data) + [k for k in b.data if k not in a.data]:
                if k in a.data and k in b.data:
                    (x, m), (y, n) = a.data[k], b.data[k]
                    d[k] = (x if x is y else join_terms([x, y]), m and n)
                else:
                    x, m = a.data.get(k) or b.data.get(k)
                    d[k] = (x, False)
            same = set(a.data) == set(b.data) and all(m for _, m in d.values())
            return a.with_(data=d, exact=a.exact and b.exact and same)
        if a.kind in ("list", "set"):
            if a.exact and b.exact and a.kind == "list" and len(a.data) == len(b.data):
                return a.with_(
                    data=tuple(
                        (x[0] if x[0] is y[0] else join_terms([x[0], y[0]]), x[1] & y[1])
                        for x, y in zip(a.data, b.data)
                    )
                )
            items = list(a.data)
            for x in b.data:
                if x not in items:
                    items.append(x)
            return a.with_(data=tuple(items), exact=False)
        return a.with_(exact=False)

    def lazy_field(self, t, obj, name):
        return T("fld", obj.lazy, name)

    # -------------------------------------------------------------- raising
    def throw(self, st, exc, node, fr):
        self.prop.raises(self, st, exc, node)
        self.rcol.append((st, exc))
        if len(self.rcol) > 64:
            groups = {}
            for s, e in self.rcol:
                k = (self.prop.key(self, s), e.name, e.explicit,
                     e.site if e.explicit else None)
                groups.setdefault(k, []).append((s, e))
            self.rcol[:] = [
                (self.join([s for s, _ in v]), v[0][1]) for v in groups.values()
            ]
            if len(self.rcol) > 40:
                groups = {}
                for s, e in self.rcol:
                    k = (self.prop.key(self, s), e.name, e.explicit)
                    groups.setdefault(k, []).append((s, e))
                self.rcol[:] = [
                    (self.join([s for s, _ in v]), v[0][1]) for v in groups.values()
                ]

    def throw_named(self, st, name, node, fr, explicit=True):
        c = ext("builtins." + name)
        self.throw(st, Exc(c, T("call", c, (), ()), self.here(node), explicit), node, fr)

    def implicit(self, st, fn, node, fr):
        """The call may raise some exception."""
        if not (self.try_depth or self.prop.track_implicit_raises):
            return
        if not self.prop.may_raise(self, st, fn, node):
            return
        s = st.fork()
        s.note("%s: %s raises" % (self.here(node), show(fn)))
        self.throw(s, Exc(None, T("sym", "exception"), self.here(node), False), node, fr)

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st, fr):
        cur, out = [st], []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c, fr):
                    if o.kind == "n":
                        nxt.append(o.st)
                    else:
                        out.append(o)
            cur = self.merge(nxt, fr)
            if not cur:
                break
        if len(out) > self.prop.cap:
            out = self.merge_outs(out)
        return [Out("n", c) for c in cur] + out

    def merge_outs(self, outs):
        groups = {}
        for o in outs:
            v = o.val if isinstance(o.val, Term) else None
            groups.setdefault((o.kind, self.prop.key(self, o.st), v), []).append(o)
        return [
            Out(k[0], self.join([o.st for o in g]), g[0].val) for k, g in groups.items()
        ]

    def stmt(self, s, st, fr):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((type(s).__name__, self.here(s)))
            return [Out("n", st)]
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [Out("n", st)]
        return [Out("n", x) for x, _ in self.ev(s.value, st, fr)]

    def s_Pass(self, s, st, fr):
        return [Out("n", st)]

    def s_Global(self, s, st, fr):
        return [Out("n", st)]

    s_Nonlocal = s_Global

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [Out("ret", st, NONE)]
        return [Out("ret", x, v) for x, v in self.ev(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        return [Out("brk", st)]

    def s_Continue(self, s, st, fr):
        return [Out("cont", st)]

    def s_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s.value, st, fr):
            sts = [x]
            for t in s.targets:
                sts = [z for y in sts for z in self.assign(t, v, y, fr)]
            out.extend(Out("n", y) for y in sts)
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [Out("n", st)]
        return [
            Out("n", y)
            for x, v in self.ev(s.value, st, fr)
            for y in self.assign(s.target, v, x, fr)
        ]

    def s_AugAssign(self, s, st, fr):
        load = _as_load(s.target)
        out = []
        for x, a in self.ev(load, st, fr):
            for y, b in self.ev(s.value, x, fr):
                self.prop.aug(self, y, a, b, s)
                o = self.obj(y, a)
                if o is not None and o.kind == "list" and isinstance(s.op, ast.Add):
                    r = models.list_extend(self, y, a, b, s)
                    res = [(y, a)]
                elif o is not None and o.kind == "set" and isinstance(s.op, ast.BitOr):
                    models.set_update(self, y, a, b, s)
                    res = [(y, a)]
                else:
                    res = self.binop(type(s.op).__name__, a, b, y, s, fr)
                for z, v in res:
                    out.extend(Out("n", w) for w in self.assign(s.target, v, z, fr))
        return out

    def s_Delete(self, s, st, fr):
        sts = [st]
        for t in s.targets:
            sts = [z for y in sts for z in self.delete(t, y, fr)]
        return [Out("n", y) for y in sts]

    def delete(self, t, st, fr):
        if isinstance(t, ast.Name):
            st.vars[(self.owner(t.id, st, fr), t.id)] = UNBOUND
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            for e in t.elts:
                sts = [z for y in sts for z in self.delete(e, y, fr)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, fr):
                self.prop.delattr(self, x, b, self.mangle(t.attr, fr), t)
                o = self.obj(x, b)
                if o is not None and o.kind == "inst":
                    d = dict(o.data)
                    d.pop(self.mangle(t.attr, fr), None)
                    self.put(x, b, o.with_(data=d))
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st, fr):
                for y, i in self.ev_index(t.slice, x, fr):
                    out.extend(self.del_item(y, b, i, t, fr))
            return out
        return [st]

    def del_item(self, st, b, i, node, fr):
        r = self.prop.delitem(self, st, b, i, node)
        if r is not None:
            return r
        o = self.obj(st, b)
        if o is not None and o.kind == "inst":
            f = self.find_member(o.cls, "__delitem__")
            if f is not None:
                return [x for x, _ in self.call(T("bm", b, self.fn_term(f)), [i], [], st, node, fr)]
        if o is not None and o.kind == "dict" and i in o.data:
            d = dict(o.data)
            d.pop(i)
            self.put(st, b, o.with_(data=d))
            return [st]
        if o is not None and o.kind == "list":
            try:
                k = pyval(i)
                if o.exact and isinstance(k, int):
                    l = list(o.data)
                    del l[k]
                    self.put(st, b, o.with_(data=tuple(l)))
                    return [st]
            except (NotConst, IndexError):
                pass
            self.put(st, b, o.with_(exact=False))
            return [st]
        self.implicit(st, T("attr", b, "__delitem__"), node, fr)
        return [st]

    def s_If(self, s, st, fr):
        ts, fs = self.branch(s.test, st, fr)
        out = []
        for x in self.merge(ts):
            out.extend(self.block(s.body, x, fr))
        for x in self.merge(fs):
            if s.orelse:
                out.extend(self.block(s.orelse, x, fr))
            else:
                out.append(Out("n", x))
        return out

    def s_Assert(self, s, st, fr):
        ts, fs = self.branch(s.test, st, fr)
        for x in fs:
            self.throw_named(x, "AssertionError", s, fr)
        return [Out("n", x) for x in ts]

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            if fr.exc:
                self.throw(st, fr.exc[-1], s, fr)
            else:
                self.throw(st, Exc(None, NONE, self.here(s), True), s, fr)
            return []
        for x, v in self.ev(s.exc, st, fr):
            vs = [(x, v)]
            if s.cause is not None:
                vs = [(y, v) for y, _ in self.ev(s.cause, x, fr)]
            for y, v in vs:
                self.throw(y, self.exc_of(v, s, y), s, fr)
        return []

    def exc_of(self, v, node, st):
        if v.tag == "excobj":
            for e in reversed(getattr(self, "exc_objs", {}).get(v.args[0], [])):
                return e
        cls = None
        if v.tag in ("ext", "cls"):
            cls = v
        elif v.tag == "call" and v.args[0].tag in ("ext", "cls"):
            cls = v.args[0]
        else:
            o = self.obj(st, v)
            if o is not None and o.kind == "inst":
                cls = T("cls", o.cls)
        return Exc(cls, v, self.here(node), True)

    def s_Import(self, s, st, fr):
        for k, v in self.prog.import_bindings(fr.module, s).items():
            t = self.binding_term(v, st, k, fr.module)
            st.vars[(self.owner(k, st, fr), k)] = t
        return [Out("n", st)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st, fr):
        fi = FuncInfo(s, fr.module, "%s.<locals>.%s" % (fr.fi.qual if fr.fi else fr.module.name, s.name), fr.cls)
        fi.decorators = []
        from .loader import decorator_names
        for d, n in zip(decorator_names(s), s.decorator_list):
            fi.decorators.append((d, n))
        self.prog.funcs[fi.qual] = fi
        t = T("fn", fi.qual, fr.eid)
        sts = [(st, t)]
        for d, n in reversed(fi.decorators):
            if d.split(".")[-1] == "contextmanager":
                sts = [(x, T("cm", v)) for x, v in sts]
            elif d.split(".")[-1] in ("wraps",):
                continue
            else:
                nxt = []
                for x, v in sts:
                    for y, dv in self.ev(n, x, fr):
                        nxt.extend(self.call(dv, [v], [], y, n, fr))
                sts = nxt
        out = []
        for x, v in sts:
            x.vars[(self.owner(s.name, x, fr), s.name)] = v
            out.append(Out("n", x))
        return out

    def s_ClassDef(self, s, st, fr):
        q = "%s.<locals>" % (fr.fi.qual if fr.fi else fr.module.name)
        ci = self.prog._class(fr.module, s, q)
        st.vars[(self.owner(s.name, st, fr), s.name)] = T("cls", ci.qual)
        return [Out("n", st)]

    # -- try ---------------------------------------------------------------
    def s_Try(self, s, st, fr):
        if s.finalbody:
            saved, self.rcol = self.rcol, []
            self.try_depth += 1
            try:
                outs = self.try_core(s, st, fr) if s.handlers else self.block_else(s, st, fr)
            finally:
                self.try_depth -= 1
                raised, self.rcol = self.rcol, saved
            res = []
            for o in self.merge_outs(outs) if len(outs) > self.prop.cap else outs:
                for f in self.block(s.finalbody, o.st, fr):
                    res.append(Out(o.kind, f.st, o.val) if f.kind == "n" else f)
            for x, e in raised:
                for f in self.block(s.finalbody, x, fr):
                    if f.kind == "n":
                        self.throw(f.st, e, s, fr)
                    else:
                        res.append(f)
            return res
        return self.try_core(s, st, fr)

    def block_else(self, s, st, fr):
        out = []
        for o in self.block(s.body, st, fr):
            if o.kind == "n" and s.orelse:
                out.extend(self.block(s.orelse, o.st, fr))
            else:
                out.append(o)
        return out

    def try_core(self, s, st, fr):
        saved, self.rcol = self.rcol, []
        self.try_depth += 1
        try:
            outs = self.block(s.body, st, fr)
        finally:
            self.try_depth -= 1
            raised, self.rcol = self.rcol, saved
        res = []
        for o in outs:
            if o.kind == "n" and s.orelse:
                res.extend(self.block(s.orelse, o.st, fr))
            else:
                res.append(o)
        for x, e in raised:
            cur = [x]
            for h in s.handlers:
                nxt = []
                for c in cur:
                    if h.type is None:
                        res.extend(self.handler(h, c, e, fr))
                        continue
                    for y, tv in self.ev(h.type, c, fr):
                        mt = self.exc_match(y, e, tv)
                        if mt is True:
                            res.extend(self.handler(h, y, e, fr))
                        elif mt is False:
                            nxt.append(y)
                        else:
                            nxt.append(y.fork())
                            res.extend(self.handler(h, y, self.narrow(e, tv), fr))
                cur = nxt
                if not cur:
                    break
            for c in cur:
                self.throw(c, e, s, fr)
        return res

    s_TryStar = s_Try

    def narrow(self, e, tv):
        if e.cls is None and tv.tag in ("ext", "cls"):
            return Exc(tv, e.val, e.site, e.explicit)
        return e

    def handler(self, h, st, e, fr):
        if h.name:
            oid = "x%d" % id(e)
            if not hasattr(self, "exc_objs"):
                self.exc_objs = {}
            self.exc_objs.setdefault(oid, []).append(e)
            st.vars[(self.owner(h.name, st, fr), h.name)] = T("excobj", oid)
        fr.exc.append(e)
        try:
            return self.block(h.body, st, fr)
        finally:
            fr.exc.pop()

    def exc_match(self, st, e, tv):
        """Does except tv catch e?  True, False or None (maybe)."""
        if tv.tag == "tup":
            rs = [self.exc_match(st, e, t) for t in tv.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        cn = models.exc_class(self.prog, tv)
        if cn in ("Exception", "BaseException"):
            if e.cls is None:
                return True
        if e.cls is None:
            return None
        en = models.exc_class(self.prog, e.cls)
        r = models.exc_subclass(self.prog, e.cls, tv)
        if r is None:
            return None
        if not r and not e.explicit and models.exc_subclass(self.prog, tv, e.cls):
            return None
        return r

    # -- with --------------------------------------------------------------
    def s_With(self, s, st, fr):
        return self.with_items(s, s.items, st, fr, lambda x: self.block(s.body, x, fr))

    s_AsyncWith = s_With

    def with_items(self, s, items, st, fr, body):
        if not items:
            return body(st)
        i = items[0]

        def inner(x, val):
            sts = [x]
            if i.optional_vars is not None:
                sts = self.assign(i.optional_vars, val, x, fr)
            out = []
            for y in sts:
                out.extend(self.with_items(s, items[1:], y, fr, body))
            return out

        out = []
        self.try_depth += 1
        try:
            vals = self.ev(i.context_expr, st, fr)
        finally:
            self.try_depth -= 1
        for x, v in vals:
            out.extend(self.with_value(s, v, x, fr, inner))
        return out

    def protect(self, body, st, val):
        """Run body; return its outcomes and what it raised."""
        saved, self.rcol = self.rcol, []
        self.try_depth += 1
        try:
            outs = body(st, val)
        finally:
            self.try_depth -= 1
            raised, self.rcol = self.rcol, saved
        if len(outs) > self.prop.cap:
            outs = self.merge_outs(outs)
        return outs, raised

    def with_value(self, s, v, st, fr, body):
        node = s
        r = self.prop.with_enter(self, st, v, node)
        if r is not None:
            res = []
            for x, val in r:
                outs, raised = self.protect(body, x, val)
                for o in outs:
                    for y in self.prop.with_exit(self, o.st, v, o.kind, node) or [o.st]:
                        res.append(Out(o.kind, y, o.val))
                for y, e in raised:
                    for z in self.prop.with_exit(self, y, v, "raise", node) or [y]:
                        self.throw(z, e, node, fr)
            return res
        if v.tag == "call" and v.args[0].tag == "ext":
            name = v.args[0].args[0]
            if name == "contextlib.suppress":
                outs, raised = self.protect(body, st, NONE)
                res = list(outs)
                tv = T("tup", *v.args[1])
                for y, e in raised:
                    m = self.exc_match(y, e, tv)
                    if m is True:
                        y.note("%s: exception suppressed" % self.here(node))
                        res.append(Out("n", y))
                    elif m is False:
                        self.throw(y, e, node, fr)
                    else:
                        self.throw(y.fork(), e, node, fr)
                        res.append(Out("n", y))
                return res
            if name == "contextlib.nullcontext":
                return body(st, v.args[1][0] if v.args[1] else NONE)
            if name == "contextlib.closing" and v.args[1]:
                x = v.args[1][0]
                return self.with_exit_calls(body, st, x, [(x, "close", [])], node, fr)
        if v.tag == "gencm":
            return self.with_gen(v, st, node, fr, body)
        o = self.obj(st, v)
        if o is not None and o.kind == "exitstack":
            outs, raised = self.protect(body, st, v)
            res = []
            for oo in outs:
                for y in self.unwind(oo.st, v, oo.kind, node, fr):
                    res.append(Out(oo.kind, y, oo.val))
            for y, e in raised:
                for z in self.unwind(y, v, "raise", node, fr):
                    self.throw(z, e, node, fr)
            return res
        if o is not None and o.kind == "inst":
            en = self.find_member(o.cls, "__enter__")
            exi = self.find_member(o.cls, "__exit__")
            if en is not None and exi is not None:
                res = []
                for x, val in self.call(T("bm", v, self.fn_term(en)), [], [], st, node, fr):
                    outs, raised = self.protect(body, x, val)
                    bm = T("bm", v, self.fn_term(exi))
                    for oo in outs:
                        for y, _ in self.call(bm, [NONE, NONE, NONE], [], oo.st, node, fr):
                            res.append(Out(oo.kind, y, oo.val))
                    for y, e in raised:
                        et = [T("sym", "exc_type"), T("sym", "exc_value"), T("sym", "exc_tb")]
                        for z, rv in self.call(bm, et, [], y, node, fr):
                            tr = self.truth(rv, z)
                            if tr is True:
                                res.append(Out("n", z))
                            elif tr is False:
                                self.throw(z, e, node, fr)
                            else:
                                self.throw(z.fork(), e, node, fr)
                                res.append(Out("n", z))
                return res
        val = T("entered", v)
        self.implicit(st, T("attr", v, "__enter__"), node, fr)
        outs, raised = self.protect(body, st, val)
        res = []
        for oo in outs:
            for y in self.prop.with_exit(self, oo.st, v, oo.kind, node) or [oo.st]:
                res.append(Out(oo.kind, y, oo.val))
        for y, e in raised:
            for z in self.prop.with_exit(self, y, v, "raise", node) or [y]:
                self.throw(z, e, node, fr)
        return res

    def with_exit_calls(self, body, st, val, calls, node, fr):
        outs, raised = self.protect(body, st, val)

        def run(x):
            sts = [x]
            for b, m, a in calls:
                nxt = []
                for y in sts:
                    for z, f in self.get_attr(y, b, m, node, fr):
                        nxt.extend(w for w, _ in self.call(f, a, [], z, node, fr))
                sts = nxt
            return sts

        res = []
        for o in outs:
            res.extend(Out(o.kind, y, o.val) for y in run(o.st))
        for y, e in raised:
            for z in run(y):
                self.throw(z, e, node, fr)
        return res

    def unwind(self, st, v, kind, node, fr):
        o = self.obj(st, v)
        sts = [st]
        for entry in reversed(o.data):
            nxt = []
            for y in sts:
                if entry[0] == "ctx":
                    nxt.extend(self.prop.with_exit(self, y, entry[1], kind, node) or [y])
                elif entry[0] == "inst":
                    f = self.find_member(self.obj(y, entry[1]).cls, "__exit__")
                    nxt.extend(z for z, _ in self.call(T("bm", entry[1], self.fn_term(f)), [NONE] * 3, [], y, node, fr))
                else:
                    nxt.extend(z for z, _ in self.call(entry[1], list(entry[2]), list(entry[3]), y, node, fr))
            sts = nxt
        return sts

    def with_gen(self, v, st, node, fr, body):
        """with over a contextlib.contextmanager generator of the package."""
        fnt, args, kw = v.args
        results = []

        def cb(x, val):
            outs = body(x, val)
            res = []
            for o in outs:
                if o.kind == "n":
                    res.append(Out("n", o.st))
                else:
                    o.st.pending = o.st.pending + ((o.kind, o.val),)
                    res.append(Out("n", o.st))
            return res

        base = len(st.pending)
        out = []
        for x, _ in self.call_fn(fnt, list(args), list(kw), st, node, fr, yield_cb=cb):
            if len(x.pending) > base:
                k, val = x.pending[-1]
                x.pending = x.pending[:-1]
                out.append(Out(k, x, val))
            else:
                out.append(Out("n", x))
        return out

    # -- loops ---------------------------------------------------------------
    def s_For(self, s, st, fr):
        out = []
        for x, v in self.ev(s.iter, st, fr):
            def body(y, elem):
                res = []
                for z in self.assign(s.target, elem, y, fr):
                    res.extend(self.block(s.body, z, fr))
                return res
            done, brk, other = self.iterate(v, x, s.iter, fr, body)
            out.extend(other)
            out.extend(Out("n", y) for y in brk)
            for y in done:
                if s.orelse:
                    out.extend(self.block(s.orelse, y, fr))
                else:
                    out.append(Out("n", y))
        return out

    s_AsyncFor = s_For

    def iterate(self, v, st, node, fr, body):
        """Drive body over the elements of v.

        Returns (states after exhaustion, states after break, other outcomes).
        """
        if v.tag == "phi":
            d, b, o = [], [], []
            for a in alts(v):
                if a is UNBOUND:
                    continue
                x, y, z = self.iterate(a, st.fork(), node, fr, body)
                d += x
                b += y
                o += z
            return d, b, o
        if v is NONE or is_c(v) and isinstance(cval(v), (int, float, complex)):
            self.throw_named(st, "TypeError", node, fr, explicit=False)
            return [], [], []
        ob = self.obj(st, v)
        if ob is not None and ob.kind == "gen":
            return self.exhaust(v, self.iterate_gen(v, ob, st, node, fr, body))
        if ob is not None and ob.kind == "genexp":
            gnode, gfr_eid, gmod = ob.data
            gfr = Frame(gfr_eid, ob.extra, gmod, None)
            gfr.cls = ob.cls
            gfr.genfr = fr
            brk, other = [], []

            def emit(x, val):
                return body(x, val)

            self.push(gfr)
            try:
                outs = self.comp_loop(gnode.generators, 0, st, gfr,
                                      lambda x: [o for y, val in self.ev(gnode.elt, x, gfr) for o in emit(y, val)])
            finally:
                self.pop()
            done = []
            for o in outs:
                if o.kind in ("n", "cont"):
                    done.append(o.st)
                elif o.kind == "brk":
                    brk.append(o.st)
                else:
                    other.append(o)
            return self.exhaust(v, (done, brk, other))
        if ob is not None and ob.kind == "inst":
            f = self.find_member(ob.cls, "__iter__")
            if f is not None:
                d, b, o = [], [], []
                for x, w in self.call(T("bm", v, self.fn_term(f)), [], [], st, node, fr):
                    if w is v:
                        continue
                    dd, bb, oo = self.iterate(w, x, node, fr, body)
                    d += dd
                    b += bb
                    o += oo
                return d, b, o
        if v.tag == "call" and v.args[0] is ext("builtins.map") and len(v.args[1]) == 2:
            f, src = v.args[1]

            def mbody(x, elem):
                res = []
                for y, w in self.call(f, [elem], [], x, node, fr):
                    res.extend(body(y, w))
                return res
            return self.iterate(src, st, node, fr, mbody)
        if v.tag == "call" and v.args[0] is ext("builtins.filter") and len(v.args[1]) == 2:
            f, src = v.args[1]

            def fbody(x, elem):
                res = []
                rs = [(x, elem)] if f is NONE else self.call(f, [elem], [], x, node, fr)
                for y, w in rs:
                    a, b = self.test(w, y)
                    if a is not None:
                        res.extend(body(a, elem))
                    if b is not None:
                        res.append(Out("n", b))
                return res
            return self.iterate(src, st, node, fr, fbody)
        exact = self.prop.iterate(self, st, v, node)
        if exact is None:
            exact = self.exact_items(st, v)
        brk, other = [], []
        if exact is not None:
            cur = [st]
            for e in exact:
                nxt = []
                for c in cur:
                    if isinstance(e, tuple):
                        el, conds = e
                        for a, b in conds:
                            c.facts[a] = b
                    else:
                        el = e
                    for o in body(c, el):
                        if o.kind in ("n", "cont"):
                            nxt.append(o.st)
                        elif o.kind == "brk":
                            brk.append(o.st)
                        else:
                            other.append(o)
                cur = self.merge(nxt)
                if not cur:
                    break
            return cur, brk, other
        # Unknown number of elements.
        self.implicit(st, T("attr", v, "__iter__"), node, fr)
        done = [st]
        cur = [st.fork()]
        before = st
        for k in range(LOOP_PASSES):
            nxt = []
            for c in cur:
                elems = self.any_elem(c, v, node)
                for i, (x, el) in enumerate(elems):
                    for o in body(x, el):
                        if o.kind in ("n", "cont"):
                            nxt.append(o.st)
                        elif o.kind == "brk":
                            brk.append(o.st)
                        else:
                            other.append(o)
            nxt = self.merge(nxt)
            for y in nxt:
                self.blur(before, y)
            cur = [y.fork() for y in nxt]
            done += nxt
            if not cur:
                break
        for y in brk:
            self.blur(before, y)
        return self.merge(done), brk, other

    def blur(self, before, after):
        """Containers changed in a loop of unknown length aren't exact."""
        for k, o in list(after.heap.items()):
            if o.kind in ("list", "set", "dict") and k in before.heap and o.exact:
                if before.heap[k] is not o and before.heap[k] != o:
                    if o.kind == "dict":
                        d = {}
                        for kk, (val, m) in o.data.items():
                            was = before.heap[k].data.get(kk)
                            d[kk] = (val, m and was is not None and was[1])
                        after.heap[k] = o.with_(exact=False, data=d)
                    else:
                        after.heap[k] = o.with_(exact=False)

    def exhaust(self, v, r):
        """Nothing is left in a generator that was iterated to its end."""
        for x in r[0]:
            if self.obj(x, v) is not None:
                self.put(x, v, Obj("list", data=(), cls=ext("types.GeneratorType")))
        return r

    def iterate_gen(self, v, ob, st, node, fr, body):
        fnt, args, kw = ob.data
        brk, other = [], []

        def cb(x, val):
            res = []
            for o in body(x, val):
                if o.kind in ("n", "cont"):
                    res.append(Out("n", o.st))
                elif o.kind == "brk":
                    brk.append(o.st)
                else:
                    other.append(o)
            return res

        done = [x for x, _ in self.call_fn(fnt, list(args), list(kw), st, node, fr, yield_cb=cb)]
        return done, brk, other

    def exact_items(self, st, v):
        """Known elements of an iterable, or None."""
        if v.tag == "tup":
            return list(v.args)
        r = self.prop.elements(self, st, v)
        if r is not None:
            return r
        if v.tag == "coll":
            return None
        if is_c(v) and isinstance(cval(v), (str, bytes)):
            return [C(x) for x in cval(v)]
        if is_c(v) and isinstance(cval(v), range):
            if len(cval(v)) <= 64:
                return [C(x) for x in cval(v)]
            return None
        o = self.obj(st, v)
        if o is None or not o.exact:
            return None
        if o.kind in ("list", "set"):
            return [x[0] if not x[1] else (x[0], x[1]) for x in o.data]
        if o.kind == "dict":
            return list(o.data)
        return None

    def any_elem(self, st, v, node):
        """Arbitrary elements of v: list of (state, element)."""
        o = self.obj(st, v)
        if o is not None and o.kind in ("list", "set"):
            out = []
            for val, conds in o.data[:4]:
                x = st.fork()
                for a, b in conds:
                    x.facts[a] = b
                out.append((x, val))
            return out
        if o is not None and o.kind == "dict":
            return [(st.fork(), k) for k in list(o.data)[:6]]
        uid = "%d@%s" % (st.fresh(), self.here(node))
        x = st.fork()
        return [(x, self.elem_of(x, v, uid))]

    def elem_of(self, st, v, uid):
        if v.tag == "call":
            f, a = v.args[0], v.args[1]
            if f.tag == "attr" and f.args[1] in ("items", "keys", "values") and not a:
                base = f.args[0]
                k, w = T("key", base, uid), T("val", base, uid)
                st.facts[T("cmp", "in", k, base)] = True
                if f.args[1] == "items":
                    return T("tup", k, w)
                return k if f.args[1] == "keys" else w
            if f.tag == "ext" and a:
                n = f.args[0].split(".")[-1]
                if f.args[0].startswith("builtins."):
                    if n == "enumerate":
                        return T("tup", T("idx", a[0], uid), self.elem_of(st, a[0], uid))
                    if n == "zip":
                        return T("tup", *[self.elem_of(st, x, uid) for x in a])
                    if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
                        return self.elem_of(st, a[0], uid)
                if f.args[0] == "numpy.ndenumerate":
                    return T("tup", T("idx", a[0], uid), T("iter", a[0], uid))
        if v.tag == "op" and v.args[0] == "sub":
            e = self.elem_of(st, v.args[1], uid)
            st.facts[T("cmp", "in", e, self.strip_set(v.args[1]))] = True
            st.facts[T("cmp", "in", e, self.strip_set(v.args[2]))] = False
            return e
        o = self.obj(st, v)
        if o is not None and o.kind in ("list", "set") and o.data:
            return join_terms([x[0] for x in o.data])
        e = T("iter", v, uid)
        st.facts[T("cmp", "in", e, v)] = True
        return e

    def strip_set(self, v):
        while (
            v.tag == "call"
            and v.args[0].tag == "ext"
            and v.args[0].args[0] in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.frozenset", "builtins.sorted")
            and len(v.args[1]) == 1
        ):
            v = v.args[1][0]
        return v

    def s_While(self, s, st, fr):
        out, cur = [], [st]
        passes = 0
        for k in range(200):
            nxt = []
            before = len(out)
            n = len(cur)
            for c in cur:
                ts, fs = self.branch(s.test, c, fr)
                for y in fs:
                    if s.orelse:
                        out.extend(self.block(s.orelse, y, fr))
                    else:
                        out.append(Out("n", y))
                for x in ts:
                    for o in self.block(s.body, x, fr):
                        if o.kind in ("n", "cont"):
                            nxt.append(o.st)
                        elif o.kind == "brk":
                            out.append(Out("n", o.st))
                        else:
                            out.append(o)
            cur = self.merge(nxt)
            if not cur:
                break
            # A pass with one outcome per state isn't counted.
            passes += len(nxt) + len(out) - before > n
            if passes > LOOP_PASSES + 1:
                break
        return out

    # -- match (approximate) --------------------------------------------------
    def s_Match(self, s, st, fr):
        out = []
        for x, v in self.ev(s.subject, st, fr):
            cur = [x]
            for c in s.cases:
                nxt = []
                for y in cur:
                    for z, yes in self.pattern(c.pattern, v, y, fr):
                        if yes is not True:
                            nxt.append(z.fork())
                        if yes is not False:
                            ts = [z]
                            if c.guard is not None:
                                ts, fs = self.branch(c.guard, z, fr)
                                nxt.extend(fs)
                            for w in ts:
                                out.extend(self.block(c.body, w, fr))
                cur = nxt
            out.extend(Out("n", y) for y in cur)
        return out

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            res = []
            for x, w in self.ev(p.value, st, fr):
                a, b = self.test(self.compare("Eq", v, w, x, p, fr), x)
                if a is not None:
                    res.append((a, True))
                if b is not None:
                    res.append((b, False))
            return res
        if isinstance(p, ast.MatchSingleton):
            a, b = self.test(self.compare("Is", v, C(p.value), st, p, fr), st)
            return ([(a, True)] if a is not None else []) + ([(b, False)] if b is not None else [])
        if isinstance(p, ast.MatchAs):
            res = [(st, True)] if p.pattern is None else self.pattern(p.pattern, v, st, fr)
            if p.name:
                for x, yes in res:
                    if yes is not False:
                        x.vars[(self.owner(p.name, x, fr), p.name)] = v
            return res
        if isinstance(p, ast.MatchOr):
            res, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for y in cur:
                    for z, yes in self.pattern(q, v, y, fr):
                        (nxt.append(z) if yes is False else res.append((z, yes)))
                cur = nxt
            return res + [(y, False) for y in cur]
        for n in ast.walk(p):
            nm = getattr(n, "name", None)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and nm:
                st.vars[(self.owner(nm, st, fr), nm)] = T("top")
        return [(st, None)]

    # ------------------------------------------------------------ assignment
    def owner(self, name, st, fr):
        fi = fr.fi
        if fi is not None and fr.eid is not None:
            if name in fi.globals:
                return "<mod>" + fr.module.name
            if name in fi.nonlocals:
                e = st.vars.get((fr.eid, "<parent>"))
                while e is not None and isinstance(e, Term):
                    if (e.args[0], name) in st.vars:
                        return e.args[0]
                    e = st.vars.get((e.args[0], "<parent>"))
        return fr.eid

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.vars[(self.owner(t.id, st, fr), t.id)] = v
            return [st]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            items = self.exact_items(st, v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is not None:
                items = [i[0] if isinstance(i, tuple) else i for i in items]
            if items is not None and not star and len(items) == n:
                vals = items
            elif items is not None and star and len(items) >= n - 1:
                k = star[0]
                m = len(items) - (n - 1 - k)
                vals = items[:k] + [T("tup", *items[k:m])] + items[m:]
            elif v.tag == "phi" and all(a.tag == "tup" and len(a.args) == n for a in alts(v)):
                vals = [join_terms([a.args[i] for a in alts(v)]) for i in range(n)]
            else:
                vals = [T("item", v, C(i)) for i in range(n)]
            sts = [st]
            for e, w in zip(t.elts, vals):
                sts = [z for y in sts for z in self.assign(e, w, y, fr)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, fr):
                out.extend(self.set_attr(x, b, self.mangle(t.attr, fr), v, t, fr))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st, fr):
                for y, i in self.ev_index(t.slice, x, fr):
                    out.extend(self.set_item(y, b, i, v, t, fr))
            return out
        return [st]

    def set_attr(self, st, b, name, v, node, fr):
        if b.tag == "phi":
            out = []
            for a in alts(b):
                out.extend(self.set_attr(st.fork(), a, name, v, node, fr))
            return out
        r = self.prop.setattr(self, st, b, name, v, node)
        if r is not None:
            return r
        o = self.obj(st, b)
        if o is not None and o.kind == "inst":
            m = self.find_member(o.cls, name)
            if isinstance(m, PropInfo):
                if m.fset is None:
                    self.throw_named(st, "AttributeError", node, fr)
                    return []
                return [x for x, _ in self.call(T("bm", b, self.fn_term(m.fset)), [v], [], st, node, fr)]
            if isinstance(m, tuple) and m[0] == "attr":
                d = self.class_attr_value(m, st, name)
                o = self.obj(st, b)
                if d.tag == "call" and d.args[0] is ext("builtins.property"):
                    fset = d.args[1][1] if len(d.args[1]) > 1 else dict(d.args[2]).get("fset")
                    if fset is None or fset is NONE:
                        self.throw_named(st, "AttributeError", node, fr)
                        return []
                    return [x for x, _ in self.call(T("bm", b, fset), [v], [], st, node, fr)]
                od = self.obj(st, d)
                if od is not None and od.kind == "inst":
                    f = self.find_member(od.cls, "__set__")
                    if isinstance(f, tuple) and f[0] == "fn":
                        return [x for x, _ in self.call(T("bm", d, self.fn_term(f[1])), [b, v], [], st, node, fr)]
            f = self.find_member(o.cls, "__setattr__")
            if isinstance(f, tuple) and f[0] == "fn" and not any(x.fi is f[1] for x in self.frames):
                return [x for x, _ in self.call(T("bm", b, self.fn_term(f[1])), [C(name), v], [], st, node, fr)]
            d = dict(o.data)
            d[name] = v
            self.put(st, b, o.with_(data=d))
            return [st]
        st.vars[("<attr>", T("attr", b, name))] = v
        self.implicit(st, T("attr", b, name), node, fr)
        return [st]

    def put_fields(self, st, b, fields):
        """What assigning through the __dict__ of an instance does."""
        o = self.obj(st, b)
        d = dict(o.data)
        d.update(fields)
        self.put(st, b, o.with_(data=d))

    def cond_facts(self, st, v):
        ss = v.leaf
        if not ss:
            return frozenset()
        return frozenset(
            (a, b) for a, b in st.facts.items() if a.leaf and not ss.isdisjoint(a.leaf)
        )

    def unhashable(self, st, k):
        """Whether it surely can't be a key."""
        if k.tag == "tup":
            return any(self.unhashable(st, x) for x in k.args)
        o = self.obj(st, k)
        return o is not None and o.kind in ("list", "dict") and o.cls is None

    def set_item(self, st, b, i, v, node, fr):
        if b.tag == "phi":
            out = []
            for a in alts(b):
                out.extend(self.set_item(st.fork(), a, i, v, node, fr))
            return out
        r = self.prop.setitem(self, st, b, i, v, node)
        if r is not None:
            return r
        o = self.obj(st, b)
        if b.tag == "idict" and is_c(i):
            self.put_fields(st, b.args[0], {cval(i): v})
            return [st]
        if o is not None and o.kind == "dict":
            if self.unhashable(st, i):
                self.throw_named(st, "TypeError", node, fr, explicit=False)
                return []
            d = dict(o.data)
            if i.tag in ("c", "tup", "ext", "cls", "fn"):
                d[i] = (v, True)
                self.put(st, b, o.with_(data=d))
            else:
                d[i] = (v, True)
                self.put(st, b, o.with_(data=d, exact=False))
            return [st]
        if o is not None and o.kind == "list":
            try:
                k = pyval(i)
                if isinstance(k, int) and o.exact and -len(o.data) <= k < len(o.data):
                    l = list(o.data)
                    l[k] = (v, self.cond_facts(st, v))
                    self.put(st, b, o.with_(data=tuple(l)))
                    return [st]
            except NotConst:
                pass
            self.put(st, b, o.with_(data=o.data + ((v, self.cond_facts(st, v)),), exact=False))
            return [st]
        if o is not None and o.kind == "inst":
            f = self.find_member(o.cls, "__setitem__")
            if f is not None:
                return [x for x, _ in self.call(T("bm", b, self.fn_term(f)), [i, v], [], st, node, fr)]
        self.implicit(st, T("attr", b, "__setitem__"), node, fr)
        return [st]

    # ---------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((type(e).__name__, self.here(e)))
            return [(st, T("top"))]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        res = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in res:
                for y, v in self.ev(e, x, fr):
                    nxt.append((y, vs + [v]))
            res = nxt
        return res

    def e_Constant(self, e, st, fr):
        return [(st, C(e.value))]

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def lookup(self, name, st, fr, node):
        eid = fr.eid
        while eid is not None:
            v = st.vars.get((eid, name))
            if v is not None:
                if v is UNBOUND or (v.tag == "phi" and UNBOUND in v.args[0]):
                    self.unbounds.append((name, self.here(node)))
                    self.prop.unbound(self, st, name, node)
                    if v is UNBOUND:
                        self.throw_named(st, "UnboundLocalError", node, fr)
                        return []
                    v = join_terms([a for a in alts(v) if a is not UNBOUND])
                    st.vars[(eid, name)] = v
                return [(st, v)]
            if eid == fr.eid and fr.fi is not None and name in fr.fi.locals and fr.genfr is None:
                self.unbounds.append((name, self.here(node)))
                self.prop.unbound(self, st, name, node)
                self.throw_named(st, "UnboundLocalError", node, fr)
                return []
            p = st.vars.get((eid, "<parent>"))
            eid = p.args[0] if isinstance(p, Term) else None
        g = st.vars.get(("<mod>" + fr.module.name, name))
        if g is not None:
            return [(st, g)]
        return [(st, self.global_term(fr.module, name, st))]

    def global_term(self, module, name, st):
        b = module.ns.get(name)
        if b is None:
            if name == "__name__":
                return C(module.name)
            if hasattr(builtins, name):
                return models.norm_ext("builtins." + name)
            return ext("?." + name)
        return self.binding_term(b, st, name, module)

    def binding_term(self, b, st, name, module):
        k = b[0]
        if k == "ext":
            return models.norm_ext(b[1])
        if k == "mod":
            return T("mod", b[1])
        if k == "from":
            return self.global_term(self.prog.modules[b[1]], b[2], st)
        if k == "fn":
            return self.decorated(b[1], st)
        if k == "cls":
            return T("cls", b[1].qual)
        if k == "val":
            key = ("<mod>" + module.name, name)
            if key in st.vars:
                return st.vars[key]
            if name in module.mutated:
                return T("global", module.name, name)
            st.vars[key] = T("top")
            fr = Frame("<mod>" + module.name, None, module)
            self.push(fr)
            saved, self.rcol = self.rcol, []
            try:
                res = self.ev(b[1], st, fr)
            finally:
                self.rcol = saved
                self.pop()
            if len(res) == 1 and res[0][0] is st:
                v = res[0][1]
            else:
                v = T("global", module.name, name)
            st.vars[key] = v
            return v
        return T("top")

    def decorated(self, fi, st):
        t = T("fn", fi.qual, None)
        for d, n in reversed(getattr(fi, "decorators", [])):
            last = d.split(".")[-1]
            if last == "contextmanager":
                t = T("cm", t)
            elif last in ("wraps", "lru_cache", "cache", "overload", "abstractmethod", "final", "override", "singledispatch"):
                continue
            else:
                fr = Frame("<mod>" + fi.module.name, None, fi.module)
                self.push(fr)
                saved, self.rcol = self.rcol, []
                try:
                    key = ("<dec>", fi.qual + d)
                    if key in st.vars:
                        t = st.vars[key]
                        continue
                    res = []
                    for x, dv in self.ev(n, st, fr):
                        if dv.tag in ("fn", "cls", "bm", "partial"):
                            res.extend(self.call(dv, [t], [], x, n, fr))
                        else:
                            res.append((x, t))
                    if len(res) == 1 and res[0][0] is st:
                        t = res[0][1]
                        st.vars[key] = t
                finally:
                    self.rcol = saved
                    self.pop()
        return t

    def fn_term(self, m):
        """Term for a class member (FuncInfo tuple or FuncInfo)."""
        if isinstance(m, tuple):
            m = m[1]
        return T("fn", m.qual, None)

    def e_Tuple(self, e, st, fr):
        out = []
        for x, vs in self.seq(e.elts, st, fr):
            out.append((x, T("tup", *vs)) if vs is not None else (x, T("top")))
        return out

    def star(self, e, st, fr):
        """[(state, value, its known elements or None)] of a starred one."""
        out = []
        for x, v in self.ev(e, st, fr):
            o = self.obj(x, v)
            if models._is_lazy(v) or o is not None and o.kind in ("gen", "genexp"):
                for y, w in models.collect(self, x, v, e, fr, "list"):
                    out.append((y, w, self.exact_items(y, w)))
            else:
                out.append((x, v, self.exact_items(x, v)))
        return out

    def seq(self, elts, st, fr):
        """Evaluates display elements, expanding stars with known elements."""
        res = [(st, [])]
        for el in elts:
            nxt = []
            for x, vs in res:
                if isinstance(el, ast.Starred):
                    for y, v, it in self.star(el.value, x, fr):
                        if it is not None:
                            nxt.append((y, vs + [i[0] if isinstance(i, tuple) else i for i in it]))
                        else:
                            nxt.append((y, vs + [T("star", v)]))
                else:
                    for y, v in self.ev(el, x, fr):
                        nxt.append((y, vs + [v]))
            res = nxt
        return res

    def e_List(self, e, st, fr):
        out = []
        for x, vs in self.seq(e.elts, st, fr):
            exact = not any(v.tag == "star" for v in vs)
            items = []
            for v in vs:
                if v.tag == "star":
                    uid = "%d@%s" % (x.fresh(), self.here(e))
                    v = self.elem_of(x, v.args[0], uid)
                items.append((v, self.cond_facts(x, v)))
            out.append((x, self.alloc(x, Obj("list", data=tuple(items), exact=exact), e)))
        return out

    def e_Set(self, e, st, fr):
        out = []
        for x, vs in self.seq(e.elts, st, fr):
            exact = not any(v.tag == "star" for v in vs)
            items = []
            for v in vs:
                if v.tag == "star":
                    uid = "%d@%s" % (x.fresh(), self.here(e))
                    v = self.elem_of(x, v.args[0], uid)
                it = (v, self.cond_facts(x, v))
                if it not in items:
                    items.append(it)
            out.append((x, self.alloc(x, Obj("set", data=tuple(items), exact=exact), e)))
        return out

    def e_Dict(self, e, st, fr):
        res = [(st, {}, True)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for x, d, ex in res:
                for y, vv in self.ev(v, x, fr):
                    if k is None:
                        o = self.obj(y, vv)
                        d2 = dict(d)
                        if o is not None and o.kind == "dict":
                            d2.update(o.data)
                            nxt.append((y, d2, ex and o.exact))
                        else:
                            d2[T("splat", vv)] = (vv, False)
                            nxt.append((y, d2, False))
                    else:
                        for z, kk in self.ev(k, y, fr):
                            if self.unhashable(z, kk):
                                self.throw_named(z, "TypeError", e, fr, explicit=False)
                                continue
                            d2 = dict(d)
                            d2[kk] = (vv, True)
                            nxt.append((z, d2, ex))
            res = nxt
        return [(x, self.alloc(x, Obj("dict", data=d, exact=ex), e)) for x, d, ex in res]

    def e_JoinedStr(self, e, st, fr):
        out = []
        parts = [p for p in e.values]
        res = [(st, [])]
        for p in parts:
            nxt = []
            for x, vs in res:
                if isinstance(p, ast.Constant):
                    nxt.append((x, vs + [C(p.value)]))
                else:
                    for y, v in self.ev(p.value, x, fr):
                        specs = [(y, None)]
                        if p.format_spec is not None:
                            specs = self.ev(p.format_spec, y, fr)
                        for z, sp in specs:
                            nxt.append((z, vs + [self.fmt(v, p.conversion, sp)]))
            res = nxt
        for x, vs in res:
            out.append((x, self.fstr(vs)))
        return out

    def fstr(self, vs):
        merged = []
        for v in vs:
            if v.tag == "fstr":
                merged.extend(v.args)
            else:
                merged.append(v)
        out = []
        for v in merged:
            if is_c(v) and isinstance(cval(v), str) and out and is_c(out[-1]):
                out[-1] = C(cval(out[-1]) + cval(v))
            else:
                out.append(v)
        if not out:
            return C("")
        if len(out) == 1 and is_c(out[0]) and isinstance(cval(out[0]), str):
            return out[0]
        return T("fstr", *out)

    def fmt(self, v, conv, spec):
        sp = "" if spec is None else (cval(spec) if is_c(spec) else None)
        if sp is not None and v.tag == "c":
            try:
                x = cval(v)
                if conv == 114:
                    x = repr(x)
                elif conv == 115:
                    x = str(x)
                elif conv == 97:
                    x = ascii(x)
                return C(format(x, sp))
            except Exception:
                pass
        return T("fmt", v, conv if conv is not None else -1, C(sp) if sp is not None else spec)

    def e_FormattedValue(self, e, st, fr):
        return self.e_JoinedStr(ast.copy_location(ast.JoinedStr([e]), e), st, fr)

    def e_Attribute(self, e, st, fr):
        out = []
        for x, b in self.ev(e.value, st, fr):
            out.extend(self.get_attr(x, b, self.mangle(e.attr, fr), e, fr))
        return out

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_%s%s" % (fr.cls.name.lstrip("_"), name)
        return name

    def mro(self, q):
        out, todo = [], [q]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            ci = self.prog.classes.get(c)
            if ci is None:
                continue
            out.append(c)
            for b in ci.bases:
                bt = self.static_name(b, ci.module)
                if bt is not None and bt.tag == "cls":
                    todo.append(bt.args[0])
        return out

    def static_name(self, e, module):
        """Resolves a base class expression."""
        try:
            if isinstance(e, ast.Name):
                b = module.ns.get(e.id)
                if b is None:
                    return ext("builtins." + e.id)
                if b[0] == "val":
                    return self.static_name(b[1], module)
                return self.binding_term(b, State(), e.id, module)
            if isinstance(e, ast.Attribute):
                b = self.static_name(e.value, module)
                if b is None:
                    return None
                if b.tag == "mod":
                    m = self.prog.modules[b.args[0]]
                    sub = b.args[0] + "." + e.attr
                    if e.attr in m.ns:
                        return self.static_name(ast.Name(e.attr, ast.Load()), m)
                    if sub in self.prog.modules:
                        return T("mod", sub)
                    return None
                if b.tag == "ext":
                    return models.norm_ext(b.args[0] + "." + e.attr)
            if isinstance(e, ast.Subscript):
                return self.static_name(e.value, module)
        except AnalysisBroken:
            raise
        return None

    def ext_bases(self, q):
        out = []
        for c in self.mro(q):
            ci = self.prog.classes[c]
            for b in ci.bases:
                t = self.static_name(b, ci.module)
                if t is not None and t.tag == "ext":
                    out.append(t.args[0])
        return out

    def find_member(self, q, name):
        """PropInfo, ('fn', FuncInfo), ('attr', expr, module), or None."""
        for c in self.mro(q):
            ci = self.prog.classes[c]
            if name in ci.members:
                return ci.members[name]
            if name in ci.attrs and ci.attrs[name] is not None:
                return ("attr", ci.attrs[name], ci)
        return None

    def class_attr_value(self, m, st, name):
        _, expr, ci = m
        key = ("<cls>" + ci.qual, name)
        if key in st.vars:
            return st.vars[key]
        fr = Frame("<cls>" + ci.qual, None, ci.module)
        fr.cls = ci
        # Methods are visible as names in the class body.
        for k, mm in ci.members.items():
            if isinstance(mm, tuple):
                st.vars.setdefault((fr.eid, k), self.fn_term(mm))
        self.push(fr)
        saved, self.rcol = self.rcol, []
        try:
            res = self.ev(expr, st, fr)
        finally:
            self.rcol = saved
            self.pop()
        if len(res) == 1:
            x, v = res[0]
            if x is not st:
                for k in State.__slots__:
                    setattr(st, k, getattr(x, k))
        else:
            v = T("top")
        st.vars[key] = v
        return v

    def get_attr(self, st, b, name, node, fr):
        if b.tag == "phi":
            out = []
            for a in alts(b):
                x = st.fork()
                out.extend(self.get_attr(x, a, name, node, fr))
            # Keep a single state when nothing happened on the way.
            if len(out) > 1 and all(o[0].facts == st.facts and o[0].p == st.p for o in out):
                j = self.join([o[0] for o in out])
                return [(j, join_terms([o[1] for o in out]))]
            return out
        r = self.prop.getattr(self, st, b, name, node)
        if r is not None:
            return r
        o = self.obj(st, b)
        if b.tag == "mod":
            m = self.prog.modules[b.args[0]]
            key = ("<mod>" + m.name, name)
            if key in st.vars:
                return [(st, st.vars[key])]
            if name in m.ns:
                return [(st, self.global_term(m, name, st))]
            if b.args[0] + "." + name in self.prog.modules:
                return [(st, T("mod", b.args[0] + "." + name))]
            return [(st, ext(b.args[0] + "." + name))]
        if b.tag == "ext":
            if name in ("__module__", "__name__", "__qualname__"):
                cn = models.class_names(b.args[0])
                if cn is not None:
                    return [(st, C(cn[0] if name == "__module__" else cn[1]))]
            return [(st, models.norm_ext(b.args[0] + "." + name))]
        if b.tag == "cls":
            return self.cls_attr(st, b, name, node, fr)
        if o is not None and o.kind == "inst":
            if name == "__class__":
                return [(st, T("cls", o.cls))]
            if name == "__dict__":
                return [(st, T("idict", b))]
            m = self.find_member(o.cls, name)
            if isinstance(m, PropInfo):
                if m.fget is None:
                    return [(st, T("top"))]
                return self.call(T("bm", b, self.fn_term(m.fget)), [], [], st, node, fr)
            if name in o.data:
                v = o.data[name]
                if v is UNBOUND:
                    self.throw_named(st, "AttributeError", node, fr)
                    return []
                return [(st, v)]
            if isinstance(m, tuple) and m[0] == "fn":
                fi = m[1]
                t = self.decorated(fi, st)
                if fi.kind == "static":
                    return [(st, t)]
                if fi.kind == "class":
                    return [(st, T("bm", T("cls", o.cls), t))]
                return [(st, T("bm", b, t))]
            if isinstance(m, ClassInfo):
                return [(st, T("cls", m.qual))]
            if isinstance(m, tuple) and m[0] == "attr":
                v = self.class_attr_value(m, st, name)
                o = self.obj(st, b)
                if v.tag == "call" and v.args[0] is ext("builtins.property"):
                    fget = v.args[1][0] if v.args[1] else dict(v.args[2]).get("fget", T("top"))
                    return self.call(T("bm", b, fget), [], [], st, node, fr)
                od = self.obj(st, v)
                if od is not None and od.kind == "inst":
                    f = self.find_member(od.cls, "__get__")
                    if isinstance(f, tuple) and f[0] == "fn":
                        return self.call(T("bm", v, self.fn_term(f[1])), [b, T("cls", o.cls)], [], st, node, fr)
                if v.tag == "fn":
                    return [(st, T("bm", b, v))]
                return [(st, v)]
            if o.lazy is not None:
                v = self.prop.field(self, st, b, name)
                if v is None:
                    v = T("fld", o.lazy, name)
                d = dict(o.data)
                d[name] = v
                self.put(st, b, o.with_(data=d))
                return [(st, v)]
            if self.ext_bases(o.cls):
                return [(st, T("attr", b, name))]
            # Not assigned on this path.
            return [(st, T("attr", b, name))]
        if o is not None and o.kind in ("list", "set", "dict", "exitstack"):
            return [(st, T("bm", b, T("cm_", o.kind, name)))]
        if b.tag == "idict":
            return [(st, T("bm", b, T("cm_", "idict", name)))]
        if b.tag in ("re", "match"):
            v = models.strings.attribute(b, name)
            if v is not None:
                return [(st, v)]
        if b.tag == "c" and isinstance(cval(b), models.pathlib.PurePath) and hasattr(cval(b), name):
            v = getattr(cval(b), name)
            if not callable(v):
                v = models.const_result(self, st, v, node)
                if v is not None:
                    return [(st, v)]
        if b.tag == "c" and not hasattr(cval(b), name):
            self.throw_named(st, "AttributeError", node, fr, explicit=False)
            return []
        if b.tag == "fn" and name == "__name__":
            return [(st, C(b.args[0].split(".")[-1]))]
        v = st.vars.get(("<attr>", T("attr", b, name)))
        if v is not None:
            return [(st, v)]
        return [(st, T("attr", b, name))]

    def cls_attr(self, st, b, name, node, fr):
        q = b.args[0]
        ci = self.prog.classes.get(q)
        if name == "__name__" and ci:
            return [(st, C(ci.name))]
        if name == "__qualname__" and ci:
            m = ci.module.name + "."
            return [(st, C(q[len(m):] if q.startswith(m) else ci.name))]
        if name == "__mro__" and ci:
            return [(st, models.mro_term(self, q))]
        if name == "__module__" and ci:
            return [(st, C(ci.module.name))]
        m = self.find_member(q, name)
        if isinstance(m, PropInfo):
            return [(st, T("prop", q, name))]
        if isinstance(m, ClassInfo):
            return [(st, T("cls", m.qual))]
        if isinstance(m, tuple) and m[0] == "fn":
            t = self.decorated(m[1], st)
            if m[1].kind == "class":
                return [(st, T("bm", b, t))]
            return [(st, t)]
        if isinstance(m, tuple):
            return [(st, self.class_attr_value(m, st, name))]
        return [(st, T("attr", b, name))]

    def e_Subscript(self, e, st, fr):
        out = []
        for x, b in self.ev(e.value, st, fr):
            for y, i in self.ev_index(e.slice, x, fr):
                out.extend(self.get_item(y, b, i, e, fr))
        return out

    def ev_index(self, s, st, fr):
        return self.ev(s, st, fr)

    def e_Slice(self, e, st, fr):
        res = [(st, [])]
        for p in (e.lower, e.upper, e.step):
            nxt = []
            for x, vs in res:
                if p is None:
                    nxt.append((x, vs + [NONE]))
                else:
                    nxt.extend((y, vs + [v]) for y, v in self.ev(p, x, fr))
            res = nxt
        return [(x, T("slice", *vs)) for x, vs in res]

    def get_item(self, st, b, i, node, fr):
        if b.tag == "phi":
            out = []
            for a in alts(b):
                out.extend(self.get_item(st.fork(), a, i, node, fr))
            if len(out) > 1 and all(o[0].facts == st.facts and o[0].p == st.p for o in out):
                return [(self.join([o[0] for o in out]), join_terms([o[1] for o in out]))]
            return out
        if b.tag == "idict" and is_c(i):
            o = self.obj(st, b.args[0])
            if cval(i) in o.data:
                return [(st, o.data[cval(i)])]
        r = self.prop.getitem(self, st, b, i, node)
        if r is not None:
            return r
        o = self.obj(st, b)
        if o is not None and o.kind == "inst":
            f = self.find_member(o.cls, "__getitem__")
            if isinstance(f, tuple):
                return self.call(T("bm", b, self.fn_term(f)), [i], [], st, node, fr)
        if o is not None and o.kind == "dict":
            return models.dict_get(self, st, b, o, i, node, fr)
        if o is not None and o.kind == "list":
            if i.tag == "slice":
                v = models.list_slice(self, st, o, i, node)
                if v is not None:
                    return [(st, v)]
            try:
                k = pyval(i)
                if o.exact and isinstance(k, int):
                    if -len(o.data) <= k < len(o.data):
                        return [(st, o.data[k][0])]
                    self.throw_named(st, "IndexError", node, fr, explicit=False)
                    return []
            except NotConst:
                pass
            if o.data:
                return [(st, join_terms([x[0] for x in o.data]))]
            return [(st, T("item", b, i))]
        if b.tag == "tup":
            if i.tag == "slice":
                try:
                    return [(st, T("tup", *b.args[slice(*[pyval(z) for z in i.args])]))]
                except NotConst:
                    return [(st, T("item", b, i))]
            try:
                k = pyval(i)
                if isinstance(k, int):
                    if -len(b.args) <= k < len(b.args):
                        return [(st, b.args[k])]
                    self.throw_named(st, "IndexError", node, fr, explicit=False)
                    return []
            except NotConst:
                if b.args and self.idx_ok(i):
                    return [(st, T("item", b, i))]
            return [(st, T("item", b, i))]
        if b.tag == "match":
            r = models.strings.call(self, st, T("attr", b, "group"), [i], (), node, fr)
            if r is not None:
                return r
        if is_c(b):
            try:
                k = slice(*[pyval(z) for z in i.args]) if i.tag == "slice" else pyval(i)
                try:
                    return [(st, C(cval(b)[k]))]
                except Exception as ex:
                    self.throw_named(st, type(ex).__name__, node, fr, explicit=False)
                    return []
            except NotConst:
                return [(st, T("item", b, i))]
        if b.tag == "ext" and (b.args[0].startswith("typing.") or b.args[0].startswith("collections.abc")):
            return [(st, b)]
        v = st.vars.get(("<item>", b, i))
        if v is not None:
            return [(st, v)]
        if not (b.tag in ("fld", "sym") and i.tag == "c"):
            self.implicit(st, T("attr", b, "__getitem__"), node, fr)
        else:
            self.implicit(st, T("attr", b, "__getitem__"), node, fr)
        return [(st, T("item", b, i))]

    def idx_ok(self, i):
        return True

    def e_Lambda(self, e, st, fr):
        q = "%s.<lambda@%d:%d>" % (fr.fi.qual if fr.fi else fr.module.name, e.lineno, e.col_offset)
        if q not in self.prog.funcs:
            fi = FuncInfo(e, fr.module, q, fr.cls)
            fi.decorators = []
            self.prog.funcs[q] = fi
        return [(st, T("fn", q, fr.eid))]

    def e_NamedExpr(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            tfr = fr.genfr or fr
            for y in self.assign(e.target, v, x, tfr):
                out.append((y, v))
        return out

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        vals = [(st, NONE)] if e.value is None else self.ev(e.value, st, fr)
        out = []
        cb = (fr.genfr or fr).yield_cb
        for x, v in vals:
            if cb is None:
                out.append((x, T("top")))
                continue
            for o in cb(x, v):
                if o.kind == "n":
                    out.append((o.st, NONE))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        cb = (fr.genfr or fr).yield_cb
        for x, v in self.ev(e.value, st, fr):
            if cb is None:
                out.append((x, T("top")))
                continue
            d, b, o = self.iterate(v, x, e, fr, cb)
            out.extend((y, NONE) for y in d)
        return out

    # -- comprehensions ---------------------------------------------------------
    def comp_frame(self, st, fr):
        eid = "c%d" % st.fresh()
        st.vars[(eid, "<parent>")] = T("env", fr.eid)
        f = Frame(eid, fr.fi, fr.module, fr.cls)
        f.genfr = fr.genfr or fr
        f.exc = fr.exc
        return f

    def comp_loop(self, gens, k, st, fr, emit):
        if k == len(gens):
            return emit(st)
        g = gens[k]
        out = []
        for x, v in self.ev(g.iter, st, fr):
            def body(y, elem):
                sts = self.assign(g.target, elem, y, fr)
                skipped = []
                for c in g.ifs:
                    nxt = []
                    for z in sts:
                        ts, fs = self.branch(c, z, fr)
                        nxt += ts
                        skipped += fs
                    sts = nxt
                res = [Out("n", z) for z in skipped]
                for z in sts:
                    res.extend(self.comp_loop(gens, k + 1, z, fr, emit))
                return res
            done, brk, other = self.iterate(v, x, g.iter, fr, body)
            out.extend(Out("n", y) for y in done)
            out.extend(Out("brk", y) for y in brk)
            out.extend(other)
        return out

    def comp(self, e, st, fr, kind, elt):
        acc = self.alloc(st, Obj(kind, data={} if kind == "dict" else ()), e)
        f = self.comp_frame(st, fr)

        def emit(x):
            return [Out("n", y) for y in elt(x, f, acc)]

        self.push(f)
        try:
            outs = self.comp_loop(e.generators, 0, st, f, emit)
        finally:
            self.pop()
        sts = self.merge([o.st for o in outs])
        return [(x, acc) for x in sts]

    def e_ListComp(self, e, st, fr):
        def elt(x, f, acc):
            res = []
            for y, v in self.ev(e.elt, x, f):
                models.list_append(self, y, acc, v)
                res.append(y)
            return res
        return self.comp(e, st, fr, "list", elt)

    def e_SetComp(self, e, st, fr):
        def elt(x, f, acc):
            res = []
            for y, v in self.ev(e.elt, x, f):
                models.set_add(self, y, acc, v)
                res.append(y)
            return res
        return self.comp(e, st, fr, "set", elt)

    def e_DictComp(self, e, st, fr):
        def elt(x, f, acc):
            res = []
            for y, (k, v) in [(y, vs) for y, vs in self.evs([e.key, e.value], x, f)]:
                res.extend(self.set_item(y, acc, k, v, e, f))
            return res
        return self.comp(e, st, fr, "dict", elt)

    def e_GeneratorExp(self, e, st, fr):
        f = self.comp_frame(st, fr)
        t = self.alloc(st, Obj("genexp", data=(e, f.eid, fr.module), cls=fr.cls, extra=fr.fi, exact=False), e)
        return [(st, t)]

    # -- boolean ------------------------------------------------------------
    def e_BoolOp(self, e, st, fr):
        out = []
        cur = [st]
        for i, sub in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for x in cur:
                for y, v in self.ev(sub, x, fr):
                    if last:
                        out.append((y, v))
                        continue
                    t, f = self.test(v, y)
                    if isinstance(e.op, ast.And):
                        if f is not None:
                            out.append((f, FALSE if is_bool_atom(v) else v))
                        if t is not None:
                            nxt.append(t)
                    else:
                        if t is not None:
                            out.append((t, TRUE if is_bool_atom(v) else v))
                        if f is not None:
                            nxt.append(f)
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for x, v in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                tr = self.truth(v, x)
                if tr is not None:
                    out.append((x, C(not tr)))
                elif v.tag == "not":
                    out.append((x, v.args[0]))
                elif is_bool_atom(v):
                    out.append((x, T("not", v)))
                else:
                    out.append((x, T("not", T("truth", v))))
            else:
                name = type(e.op).__name__
                if is_c(v):
                    try:
                        r = {"USub": lambda a: -a, "UAdd": lambda a: +a, "Invert": lambda a: ~a}[name](cval(v))
                        out.append((x, C(r)))
                        continue
                    except Exception:
                        pass
                out.append((x, T("op", name.lower(), v)))
        return out

    def e_IfExp(self, e, st, fr):
        ts, fs = self.branch(e.test, st, fr)
        out = []
        for x in ts:
            out.extend(self.ev(e.body, x, fr))
        for x in fs:
            out.extend(self.ev(e.orelse, x, fr))
        return out

    def e_Compare(self, e, st, fr):
        out = []
        res = [(st, [])]
        for x, vs in self.evs([e.left] + e.comparators, st, fr):
            if len(e.ops) == 1:
                op = type(e.ops[0]).__name__
                if op in ("In", "NotIn"):
                    for y, v in self.contains(vs[0], vs[1], x, e, fr):
                        out.append((y, self.negate(v, y) if op == "NotIn" else v))
                else:
                    out.append((x, self.compare(op, vs[0], vs[1], x, e, fr)))
                continue
            # Chained: a < b < c.
            cur = [x]
            for i, o in enumerate(e.ops):
                op = type(o).__name__
                nxt = []
                for y in cur:
                    if op in ("In", "NotIn"):
                        rs = self.contains(vs[i], vs[i + 1], y, e, fr)
                        rs = [(z, self.negate(v, z) if op == "NotIn" else v) for z, v in rs]
                    else:
                        rs = [(y, self.compare(op, vs[i], vs[i + 1], y, e, fr))]
                    for z, v in rs:
                        if i == len(e.ops) - 1:
                            out.append((z, v))
                        else:
                            t, f = self.test(v, z)
                            if f is not None:
                                out.append((f, FALSE))
                            if t is not None:
                                nxt.append(t)
                cur = nxt
        return out

    def negate(self, v, st):
        tr = self.truth(v, st)
        if tr is not None:
            return C(not tr)
        if v.tag == "not":
            return v.args[0]
        return T("not", v)

    def compare(self, op, a, b, st, node, fr):
        r = self.prop.compare(self, st, op, a, b, node)
        if r is not None:
            return r
        if op == "NotEq":
            return self.negate(self.compare("Eq", a, b, st, node, fr), st)
        if op == "IsNot":
            return self.negate(self.compare("Is", a, b, st, node, fr), st)
        if op == "Gt":
            return self.compare("Lt", b, a, st, node, fr)
        if op == "GtE":
            return self.negate(self.compare("Lt", a, b, st, node, fr), st)
        if op == "LtE":
            return self.negate(self.compare("Lt", b, a, st, node, fr), st)
        k = {"Eq": "eq", "Is": "is", "Lt": "lt"}[op]
        if k in ("eq", "is"):
            if b.idx < a.idx:
                a, b = b, a
            if k == "is" and (a.tag == "c" and isinstance(a.args[0], bool) or b.tag == "c" and isinstance(b.args[0], bool)):
                pass
        if k == "eq":
            for x, y in ((a, b), (b, a)):
                o = self.obj(st, x)
                if o is not None and o.kind == "inst":
                    f = self.find_member(o.cls, "__eq__")
                    if f is not None:
                        return T("cmp", k, a, b)
        t = T("cmp", k, a, b)
        d = self.decide(t, st)
        return t if d is None else C(d)

    def coll_term(self, coll, st):
        o = self.obj(st, coll)
        if o is not None and o.kind in ("list", "set", "dict") and o.exact:
            items = list(o.data) if o.kind == "dict" else [x[0] for x in o.data]
            return T("coll", frozenset(items))
        if coll.tag == "tup":
            return T("coll", frozenset(coll.args))
        if coll.tag == "call" and coll.args[0].tag == "attr" and coll.args[0].args[1] == "keys" and not coll.args[1]:
            return coll.args[0].args[0]
        return self.strip_set(coll)

    def contains(self, a, coll, st, node, fr):
        r = self.prop.contains(self, st, a, coll, node)
        if r is not None:
            return r
        o = self.obj(st, coll)
        if o is not None and o.kind == "inst":
            f = self.find_member(o.cls, "__contains__")
            if isinstance(f, tuple) and f[0] == "fn":
                return self.call(T("bm", coll, self.fn_term(f)), [a], [], st, node, fr)
        if is_c(coll) and isinstance(cval(coll), (str, bytes)) and is_c(a):
            try:
                return [(st, C(cval(a) in cval(coll)))]
            except Exception:
                pass
        t = T("cmp", "in", a, self.coll_term(coll, st))
        d = self.decide(t, st)
        return [(st, t if d is None else C(d))]

    # -- truth ------------------------------------------------------------------
    def truth(self, v, st):
        """Known truth value or None."""
        if v.tag == "c":
            return bool(cval(v))
        if v.tag == "tup":
            return bool(v.args)
        if v.tag == "not":
            r = self.truth(v.args[0], st)
            return None if r is None else not r
        if v.tag in ("fn", "cls", "ext", "mod", "bm", "cm", "re", "match"):
            return True
        if v.tag in ("cmp", "isinst", "hasattr"):
            return self.decide(v, st)
        if v.tag == "truth":
            r = self.decide(v, st)
            return self.truth(v.args[0], st) if r is None else r
        if v.tag == "phi":
            rs = {self.truth(a, st) for a in alts(v) if a is not UNBOUND}
            if len(rs) == 1:
                return rs.pop()
            r = st.facts.get(T("truth", v))
            return r
        o = self.obj(st, v)
        if o is not None:
            if o.kind in ("list", "set", "dict"):
                if o.exact:
                    return bool(o.data)
                if o.kind == "dict" and any(m for _, m in o.data.values()):
                    return True
                return st.facts.get(T("truth", v))
            if o.kind == "inst":
                if self.find_member(o.cls, "__bool__") or self.find_member(o.cls, "__len__"):
                    return st.facts.get(T("truth", v))
                return True
            if o.kind in ("gen", "genexp"):
                return True
        if v.tag == "fstr" and any(is_c(a) and cval(a) for a in v.args):
            return True
        return self.decide(T("truth", v), st)

    def test(self, v, st):
        """(state if true, state if false); None when impossible."""
        d = self.truth(v, st)
        if d is True:
            return st, None
        if d is False:
            return None, st
        atom, pos = v, True
        while atom.tag == "not":
            atom, pos = atom.args[0], not pos
        if not is_bool_atom(atom):
            atom = T("truth", atom)
        t = self.assume(st.fork(), atom, pos)
        f = self.assume(st, atom, not pos)
        return t, f

    def assume(self, st, atom, b):
        if not models.assume(self, st, atom, b):
            return None
        return st

    def branch(self, e, st, fr):
        """Evaluates a condition: (states where true, states where false)."""
        if isinstance(e, ast.BoolOp):
            ts, fs, cur = [], [], [st]
            for i, sub in enumerate(e.values):
                last = i == len(e.values) - 1
                nt, nf = [], []
                for x in cur:
                    a, b = self.branch(sub, x, fr)
                    nt += a
                    nf += b
                if isinstance(e.op, ast.And):
                    fs += nf
                    cur = nt
                    if last:
                        ts += nt
                else:
                    ts += nt
                    cur = nf
                    if last:
                        fs += nf
            return self.merge(ts), self.merge(fs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.branch(e.operand, st, fr)
            return b, a
        ts, fs = [], []
        for x, v in self.ev(e, st, fr):
            t, f = self.test(v, x)
            if t is not None:
                self.refine(e, t, True, fr)
                ts.append(t)
            if f is not None:
                self.refine(e, f, False, fr)
                fs.append(f)
        return ts, fs

    def refine(self, e, st, b, fr):
        """Removes alternatives of joined values a test rules out."""
        tgt, none_true = None, None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            tgt = e.left
            none_true = isinstance(e.ops[0], (ast.Is, ast.Eq))
            keep_none = b if none_true else not b
        elif isinstance(e, (ast.Name, ast.Attribute)):
            tgt = e
            keep_none = None if not b else False
            if keep_none is None:
                return
        else:
            return
        if isinstance(tgt, ast.Name):
            key = (self.owner(tgt.id, st, fr), tgt.id)
            v = st.vars.get(key)
            if v is not None and v.tag == "phi":
                a = [x for x in alts(v) if (x is NONE) == keep_none or (keep_none and x.tag not in ("c", "obj", "tup", "cls", "fn", "ext"))]
                if a:
                    st.vars[key] = join_terms(a)
        elif isinstance(tgt, ast.Attribute):
            sts = self.ev(tgt.value, st, fr) if isinstance(tgt.value, ast.Name) else []
            for x, bt in sts:
                o = self.obj(x, bt)
                name = self.mangle(tgt.attr, fr)
                if o is not None and o.kind == "inst" and name in o.data and o.data[name].tag == "phi":
                    a = [y for y in alts(o.data[name]) if (y is NONE) == keep_none]
                    if a:
                        d = dict(o.data)
                        d[name] = join_terms(a)
                        self.put(st, bt, o.with_(data=d))

    def decide(self, atom, st):
        r = st.facts.get(atom)
        if r is not None:
            return r
        r = models.fold_atom(self, st, atom)
        if r is not None:
            return r
        return self.prop.decide(self, st, atom)

    # -- operators -------------------------------------------------------------
    def e_BinOp(self, e, st, fr):
        out = []
        for x, (a, b) in [(x, vs) for x, vs in self.evs([e.left, e.right], st, fr)]:
            out.extend(self.binop(type(e.op).__name__, a, b, x, e, fr))
        return out

    def binop(self, op, a, b, st, node, fr):
        if a.tag == "phi" or b.tag == "phi":
            if len(alts(a)) * len(alts(b)) <= 8:
                vals = []
                for p in alts(a):
                    for q in alts(b):
                        if UNBOUND in (p, q):
                            continue
                        rs = self.binop(op, p, q, st, node, fr)
                        vals.extend(v for _, v in rs)
                if vals:
                    return [(st, join_terms(vals))]
        r = self.prop.binop(self, st, op, a, b, node)
        if r is not None:
            return r
        return models.binop(self, op, a, b, st, node, fr)

    # -- calls -------------------------------------------------------------------
    def e_Call(self, e, st, fr):
        out = []
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            r = self.super_call(e, st, fr)
            if r is not None:
                return r
        for x, f in self.ev(e.func, st, fr):
            res = [(x, [])]
            for a in e.args:
                nxt = []
                for y, vs in res:
                    if isinstance(a, ast.Starred):
                        for z, v, it in self.star(a.value, y, fr):
                            if it is not None:
                                nxt.append((z, vs + [i[0] if isinstance(i, tuple) else i for i in it]))
                            else:
                                nxt.append((z, vs + [T("star", v)]))
                    else:
                        for z, v in self.ev(a, y, fr):
                            nxt.append((z, vs + [v]))
                res = nxt
            kres = [(y, vs, []) for y, vs in res]
            for k in e.keywords:
                nxt = []
                for y, vs, ks in kres:
                    for z, v in self.ev(k.value, y, fr):
                        if k.arg is None:
                            o = self.obj(z, v)
                            if o is not None and o.kind == "dict" and o.exact and all(
                                is_c(q) and isinstance(cval(q), str) for q in o.data
                            ):
                                nxt.append((z, vs, ks + [(cval(q), w) for q, (w, m) in o.data.items()]))
                            else:
                                nxt.append((z, vs, ks + [(None, v)]))
                        else:
                            nxt.append((z, vs, ks + [(k.arg, v)]))
                kres = nxt
            for y, vs, ks in kres:
                out.extend(self.call(f, vs, ks, y, e, fr))
        if len(out) > self.prop.cap:
            groups = {}
            for x, v in out:
                groups.setdefault((v, self.prop.key(self, x)), []).append(x)
            out = [(self.join(g), k[0]) for k, g in groups.items()]
        return out

    def super_call(self, e, st, fr):
        if fr.cls is None or fr.fi is None or not fr.fi.params:
            return None
        selfv = st.vars.get((fr.eid, fr.fi.params[0]))
        if selfv is None:
            return None
        o = self.obj(st, selfv)
        q = o.cls if o is not None and o.kind == "inst" else fr.cls.qual
        order = self.mro(q)
        if fr.cls.qual in order:
            order = order[order.index(fr.cls.qual) + 1:]
        name = self.mangle(e.func.attr, fr)
        for c in order:
            m = self.prog.classes[c].members.get(name)
            if isinstance(m, tuple) and m[0] == "fn":
                f = T("bm", selfv, self.fn_term(m))
                out = []
                for x, args in self.seq(e.args, st, fr):
                    cur = [(x, [])]
                    for k in e.keywords:
                        cur = [(z, ks + [(k.arg, v)]) for y, ks in cur for z, v in self.ev(k.value, y, fr)]
                    for y, ks in cur:
                        out.extend(self.call(f, args, ks, y, e, fr))
                return out
        if name == "__init__":
            return [(x, NONE) for x, _ in self.seq(e.args, st, fr)]
        return None

    def push(self, fr):
        if not isinstance(self.frames, list):
            self.frames = []
        self.frames.append(fr)

    def pop(self):
        self.frames.pop()

    def call(self, f, args, kw, st, node, fr):
        """Calls f.  Returns [(state, value)]."""
        self.tick()
        if f.tag == "phi":
            out = []
            for a in alts(f):
                if a is not UNBOUND:
                    out.extend(self.call(a, args, kw, st.fork(), node, fr))
            return out
        r = self.prop.call(self, st, f, args, kw, node, fr)
        if r is not None:
            return r
        if f.tag == "bm":
            recv, fn = f.args
            if fn.tag == "cm_":
                return models.container_method(self, st, recv, fn.args[0], fn.args[1], args, kw, node, fr)
            return self.call(fn, [recv] + list(args), kw, st, node, fr) if fn.tag != "fn" else self.call_fn(fn, [recv] + list(args), kw, st, node, fr)
        if f.tag == "fn":
            return self.call_fn(f, args, kw, st, node, fr)
        if f.tag == "cm":
            return [(st, T("gencm", f.args[0], tuple(args), tuple(kw)))]
        if f.tag == "cls":
            return self.instantiate(f, args, kw, st, node, fr)
        if f.tag == "partial":
            return self.call(f.args[0], list(f.args[1]) + list(args), list(f.args[2]) + list(kw), st, node, fr)
        o = self.obj(st, f)
        if o is not None and o.kind == "inst":
            m = self.find_member(o.cls, "__call__")
            if isinstance(m, tuple):
                return self.call_fn(self.fn_term(m), [f] + list(args), kw, st, node, fr)
        return models.ext_call(self, st, f, args, kw, node, fr)

    def opaque_call(self, st, f, args, kw, node, fr, pure=None):
        self.ext_calls += 1
        self.sites.add(self.here(node))
        if pure is None:
            pure = models.is_pure(f)
        extra = () if pure else ("%d@%s" % (st.fresh(), self.here(node)),)
        t = T("call", f, tuple(args), tuple(kw), *extra)
        self.implicit(st, f, node, fr)
        return [(st, t)]

    def instantiate(self, f, args, kw, st, node, fr):
        q = f.args[0]
        ci = self.prog.classes[q]
        eb = self.ext_bases(q)
        if any(models.is_exc_name(b) for b in eb):
            return [(st, T("call", f, tuple(args), tuple(kw)))]
        obj = self.alloc(st, Obj("inst", cls=q, data={}), node)
        init = self.find_member(q, "__init__")
        if isinstance(init, tuple):
            out = []
            for x, _ in self.call_fn(self.fn_term(init), [obj] + list(args), kw, st, node, fr):
                out.append((x, obj))
            return out
        if ci.dataclass or any(b.endswith("NamedTuple") for b in eb):
            names = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign)]
            d = {}
            for n, v in zip(names, args):
                d[n] = v
            for k, v in kw:
                if k:
                    d[k] = v
            for n in names:
                if n not in d and ci.attrs.get(n) is not None:
                    d[n] = self.class_attr_value(("attr", ci.attrs[n], ci), st, n)
            self.put(st, obj, Obj("inst", cls=q, data=d))
        return [(st, obj)]

    def call_fn(self, f, args, kw, st, node, fr, yield_cb=None):
        q, penv = f.args[0], f.args[1]
        fi = self.prog.funcs[q]
        self.calls_seen.add(q)
        base = q.rstrip("'")
        if base in self.prop.opaque or self.stack.count(q) >= self.prop.recursion or len(self.stack) > self.prop.max_stack:
            return self.opaque_call(st, f, args, kw, node, fr, pure=base in self.prop.opaque)
        if fi.is_gen and yield_cb is None:
            return [(st, self.alloc(st, Obj("gen", data=(f, tuple(args), tuple(kw)), exact=False), node))]
        eid = "e%d@%s" % (st.fresh(), self.here(node))
        nfr = Frame(eid, fi, fi.module, fi.cls)
        nfr.yield_cb = yield_cb
        nfr.exc = list(fr.exc) if fr is not None else []
        if penv is not None:
            st.vars[(eid, "<parent>")] = T("env", penv)
        sts = self.bind(fi, args, kw, st, nfr, node)
        self.stack.append(q)
        self.push(nfr)
        out = []
        try:
            for x in sts:
                if isinstance(fi.node, ast.Lambda):
                    out.extend(self.ev(fi.node.body, x, nfr))
                    continue
                for o in self.block(fi.body, x, nfr):
                    if o.kind == "ret":
                        out.append((o.st, o.val))
                    elif o.kind == "n":
                        out.append((o.st, NONE))
        finally:
            self.pop()
            self.stack.pop()
        # Drop the frame unless something may have captured it.
        for x, v in out:
            self.drop_env(x, eid, v)
        if len(out) > self.prop.cap:
            groups = {}
            for x, v in out:
                groups.setdefault((v, self.prop.key(self, x)), []).append(x)
            out = [(self.join(g), k[0]) for k, g in groups.items()]
            if len(out) > 2 * self.prop.cap:
                groups = {}
                for x, v in out:
                    groups.setdefault(self.prop.key(self, x), []).append((x, v))
                out = [
                    (self.join([x for x, _ in g]), join_terms([v for _, v in g]))
                    for g in groups.values()
                ]
        return out

    def drop_env(self, st, eid, v):
        for t in walk(v):
            if t.tag in ("fn", "obj"):
                return
        if any(k[1] == "<parent>" and isinstance(p, Term) and p.args[0] == eid for k, p in st.vars.items() if isinstance(k, tuple)):
            return
        for k in [k for k in st.vars if k[0] == eid]:
            del st.vars[k]

    def bind(self, fi, args, kw, st, nfr, node):
        eid = nfr.eid
        pos = list(args)
        names = list(fi.params)
        given = {}
        opaque_star = None
        i = 0
        for v in pos:
            if v.tag == "star":
                opaque_star = v.args[0]
                break
            if i < len(names):
                given[names[i]] = v
            i += 1
        if fi.vararg:
            rest = pos[len(names):]
            if any(v.tag == "star" for v in rest):
                stars = [v for v in rest if v.tag == "star"]
                st.vars[(eid, fi.vararg)] = stars[0].args[0] if len(rest) == 1 else T("tup", *rest)
            else:
                st.vars[(eid, fi.vararg)] = T("tup", *rest)
        extra, opaque_kw = {}, []
        for k, v in kw:
            if k is None:
                opaque_kw.append(v)
            elif k in names or k in fi.kwonly:
                given[k] = v
            else:
                extra[k] = v
        if fi.kwarg:
            if opaque_kw and not extra and len(opaque_kw) == 1:
                st.vars[(eid, fi.kwarg)] = opaque_kw[0]
            else:
                d = {C(k): (v, True) for k, v in extra.items()}
                for v in opaque_kw:
                    d[T("splat", v)] = (v, False)
                st.vars[(eid, fi.kwarg)] = self.alloc(
                    st, Obj("dict", data=d, exact=not opaque_kw), node)
        mfr = Frame("<mod>" + fi.module.name, None, fi.module)
        nd = len(fi.defaults)
        for j, n in enumerate(names + fi.kwonly):
            if n in given:
                st.vars[(eid, n)] = given[n]
                continue
            if j < len(names):
                k = j - (len(names) - nd)
                d = fi.defaults[k] if k >= 0 else None
            else:
                d = fi.kw_defaults[j - len(names)]
            if d is not None:
                self.push(mfr)
                try:
                    res = self.ev(d, st, mfr if nfr.fi.cls is None else mfr)
                finally:
                    self.pop()
                v = res[0][1] if len(res) == 1 else T("top")
                if opaque_kw or opaque_star is not None:
                    alt = [v]
                    for o in opaque_kw:
                        alt.append(T("kwitem", o, n))
                    if opaque_star is not None:
                        alt.append(T("item", opaque_star, C(j)))
                    v = join_terms(alt)
                st.vars[(eid, n)] = v
            elif opaque_star is not None:
                st.vars[(eid, n)] = T("item", opaque_star, C(j))
            elif opaque_kw:
                st.vars[(eid, n)] = T("kwitem", opaque_kw[0], n)
            else:
                st.vars[(eid, n)] = T("sym", n)
        return [st]

    # -------------------------------------------------------------- entry points
    def run(self, f, args, st, kw=()):
        """Analyses a call of f; returns (returns, raises)."""
        node = ast.Pass()
        node.lineno = node.col_offset = 0
        if f.tag == "bm":
            q = f.args[1]
        else:
            q = f
        m = None
        if q.tag == "fn":
            m = self.prog.funcs[q.args[0]].module
        elif q.tag == "cls":
            m = self.prog.classes[q.args[0]].module
        else:
            m = next(iter(self.prog.modules.values()))
        fr = Frame("<entry>", None, m)
        self.frames = []
        self.push(fr)
        self.rcol = []
        self.try_depth = 0
        self.stack = []
        rets = self.call(f, list(args), list(kw), st, node, fr)
        return rets, self.rcol

    def method(self, q, name):
        m = self.find_member(q, name)
        return m


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n
