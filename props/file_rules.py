"""Rules about the File class: lock, typestate, read only, isolation."""

from .common import *

# What an operation isn't: making, finalising or managing the object itself.
MANAGE = {"__init__", "__new__", "__del__", "__enter__", "__exit__", "closed",
          "close", "__init_subclass__", "__class_getitem__"}

MUTATING = {"create_dataset", "create_group", "create_dataset_like",
            "require_group", "require_dataset", "move", "copy", "clear",
            "update", "pop", "popitem", "setdefault", "create", "modify",
            "create_virtual_dataset", "write_direct", "resize", "__setitem__",
            "__delitem__", "write"}
NON_ACCESS = {"isinstance", "type", "id", "bool", "hash", "callable", "hasattr",
              "issubclass", "iter", "map", "filter", "zip", "enumerate", "reversed"}


class InitProp(Property):
    """Running the constructor to get the objects to analyse methods on."""

    cap = 8
    opaque = frozenset([PROCESS])

    def call(self, it, st, f, args, kw, node, fr):
        return None

    def decide(self, it, st, atom):
        return handle_truth(st, atom)


def handle_truth(st, atom):
    """An h5py.File is true (and its id valid) while it is open."""
    if atom.tag == "truth":
        t = atom.args[0]
        while t.tag == "attr" and t.args[1] in ("id", "valid"):
            t = t.args[0]
        if t.tag == "call" and t.args[0].tag == "ext" and t.args[0].args[0] == "builtins.bool":
            t = t.args[1][0]
        if is_handle(t):
            return t not in st.p.get("shut", ())
    return None


def ctor_args(writable, options=True, truncate=FALSE, invalid=FALSE):
    def build(it):
        st = State()
        kw = [
            ("filename", typed("filename", "builtins.str")),
            ("writable", C(writable)),
            ("truncate_existing", truncate),
            ("truncate_invalid_matlab", invalid),
        ]
        if options:
            kw.append(("options", obj_of(it, st, OPTIONS, lazy=sym("options"))))
        return st, [], kw
    return build


def file_objects(ctx, writable):
    """[(state, File object)] after the constructor returned."""
    ctx.prog.func(FILE + ".__init__")
    it, prop, rets, raises = ctx.run(T("cls", FILE), InitProp, ctor_args(writable))
    out, seen = [], []
    for st, o in rets:
        d = it.obj(st, o).data
        shape = tuple(sorted((k, short(v)) for k, v in d.items()))
        if shape in seen:
            continue
        seen.append(shape)
        st.p.clear()
        st.trace = None
        out.append((st, o))
    if not out:
        raise AnalysisBroken("the File constructor never returns (writable=%s)" % writable)
    return out


def short(t):
    if t.tag == "call":
        return ("call", t.args[0].idx)
    if t.tag == "obj":
        return "obj"
    return t.tag


class FileProp(Property):
    """Lock, typestate and read only events on one operation."""

    cap = 12
    track_implicit_raises = True

    def __init__(self, ctx, entry, fileobj, world, closed_fields=None, rules=(), raw=()):
        self.ctx = ctx
        self.entry = entry
        self.fileobj = fileobj
        self.world = world
        self.closed_fields = closed_fields
        self.rules = rules
        self.raw = raw
        self.accesses = 0
        self.mutations = 0
        self.acquires = 0

    # -- reporting -------------------------------------------------------
    def bad(self, it, st, rule, what, message, node):
        if rule.split(".")[0] not in self.rules:
            return
        loc = it.loc(node)
        fr = it.frames[-1] if it.frames else None
        q = fr.fi.qual if fr is not None and fr.fi is not None else self.entry
        self.ctx.violation(
            rule, "%s via %s: %s" % (q, self.entry, what),
            "%s: %s (entry point %s, %s)" % (loc, message, self.entry, self.world),
            loc, st.history())

    tells = ()          # fields closing the File changes

    def setattr(self, it, st, base, name, val, node):
        if base is self.fileobj and name in self.tells and not st.p.get("lk"):
            self.bad(it, st, "C01.unlocked", "sets " + name,
                     "the field %s, which tells whether the File is open, is changed without holding the lock" % name, node)
        return None

    # -- lock ------------------------------------------------------------
    def acquire(self, it, st, lock, node):
        self.acquires += 1
        n = st.p.get("lk", 0)
        if n and not is_reentrant(lock):
            self.bad(it, st, "C01.relock", show(lock.args[0]),
                     "the lock is taken again while it is already held (deadlock)", node)
            return None
        st.p["lk"] = n + 1
        if n == 0:
            st.p["holds"] = min(st.p.get("holds", 0) + 1, 3)
            if self.world == "race" and not st.p.get("closed"):
                self.close_behind(it, st)
        st.note("%s: lock acquired" % it.loc(node))
        return st

    def release(self, it, st, node):
        st.p["lk"] = max(st.p.get("lk", 0) - 1, 0)
        st.note("%s: lock released" % it.loc(node))
        return st

    def close_behind(self, it, st):
        """Another thread closed the file before we got the lock."""
        o = it.obj(st, self.fileobj)
        d = dict(o.data)
        d.update(self.closed_fields[0])
        it.put(st, self.fileobj, o.with_(data=d))
        st.p["shut"] = self.closed_fields[1]
        st.p["closed"] = True
        st.note("another thread closes the file")

    def with_enter(self, it, st, v, node):
        if is_lock(v):
            x = self.acquire(it, st, v, node)
            return [(x, TRUE)] if x is not None else []
        return None

    def with_exit(self, it, st, v, kind, node):
        if is_lock(v):
            return [self.release(it, st, node)]
        return None

    def decide(self, it, st, atom):
        return handle_truth(st, atom)

    # -- accesses --------------------------------------------------------
    def access(self, it, st, what, node, mutating=False):
        if st.p.get("init"):
            return
        self.accesses += 1
        if mutating:
            self.mutations += 1
        if not st.p.get("lk"):
            self.bad(it, st, "C01.unlocked", what,
                     "%s accesses the HDF5 file without holding the lock" % what, node)
        hold = st.p.get("holds", 0)
        if st.p.get("acc") not in (None, hold):
            self.bad(it, st, "C01.split", what,
                     "%s accesses the HDF5 file in another hold of the lock than the "
                     "accesses before it" % what, node)
        st.p["acc"] = hold
        if st.p.get("closed"):
            self.bad(it, st, "C02.closed-access", what,
                     "%s uses the HDF5 file although the File is closed" % what, node)
        if mutating and self.world == "read only":
            self.bad(it, st, "C03.modifies", what,
                     "%s modifies a file that was opened read only" % what, node)
        st.p["touched"] = True

    def args_raw(self, it, st, args, node, what):
        for a in args:
            for x in deep_values(it, st, a):
                for y in walk(x):
                    if y in self.raw or (y.tag in ("key", "iter") and y.args[0] in self.raw):
                        self.bad(it, st, "C07.raw", what,
                                 "%s is given the path %s that wasn't processed" % (what, show(y)), node)
                        return

    def call(self, it, st, f, args, kw, node, fr):
        if f.tag == "fn" and f.args[0] == PROCESS:
            if st.p.get("touched"):
                self.bad(it, st, "C07.late", "process_path",
                         "a path is checked only after the file was already accessed", node)
            if self.world not in ("closed", "race"):
                # Those worlds are about operations with valid arguments.
                it.throw_named(st.fork(), "TypeError", node, fr)
                it.throw_named(st.fork(), "ValueError", node, fr)
            u = st.fresh()
            return [(st, T("tup", T("sym", "group#%d" % u), T("sym", "target#%d" % u)))]
        if f.tag == "attr" and is_lock(f.args[0]):
            lock, m = f.args
            if m in ("acquire", "__enter__"):
                out = []
                if m == "acquire" and (args or kw):
                    out.append((st.fork(), FALSE))
                x = self.acquire(it, st, lock, node)
                if x is not None:
                    out.append((x, TRUE))
                return out
            if m in ("release", "__exit__"):
                return [(self.release(it, st, node), NONE)]
            return [(st, T("top"))]
        if f.tag == "bm" and f.args[1].tag == "fn":
            o = it.obj(st, f.args[0])
            q = f.args[1].args[0]
            if o is not None and o.kind == "inst" and LLF in it.mro(o.cls) and q.startswith(LLF + "."):
                name = q.split(".")[-1].rstrip("'")
                m = it.find_member(o.cls, name)
                if isinstance(m, tuple) and name != "__init__":
                    what = "%s.%s()" % (LLF.split(".")[-1], name)
                    self.access(it, st, what, node, mutating=name.startswith("write"))
                    self.args_raw(it, st, args[:2], node, what)
                    it.implicit(st, f, node, fr)
                    return [(st, T("call", f, tuple(args), tuple(kw), "%d" % st.fresh()))]
        if f.tag == "attr" and h5ish(f.args[0]):
            if f.args[1] == "close" and is_handle(f.args[0]):
                self.access_close(it, st, f, node)
                it.implicit(st, f, node, fr)
                st.p["shut"] = tuple(st.p.get("shut", ())) + (f.args[0],)
                return [(st, NONE)]
            what = "%s()" % f.args[1]
            self.access(it, st, what, node, mutating=f.args[1] in MUTATING)
            self.args_raw(it, st, args, node, what)
        elif f.tag == "ext":
            n = f.args[0]
            b = n[9:] if n.startswith("builtins.") else n
            if n != "h5py.File" and b not in NON_ACCESS and any(h5ish(a) for a in args):
                self.access(it, st, "%s()" % b, node)
        return None

    def access_close(self, it, st, f, node):
        self.accesses += 1
        if not st.p.get("lk"):
            self.bad(it, st, "C01.unlocked", "close()",
                     "the HDF5 file is closed without holding the lock", node)

    def none_use(self, it, st, base, node, what, exc):
        if base is NONE:
            it.throw_named(st, exc, node, it.frames[-1], explicit=False)
            return True
        return False

    def getattr(self, it, st, base, name, node):
        if base is NONE and not name.startswith("__"):
            it.throw_named(st, "AttributeError", node, it.frames[-1], explicit=False)
            return []
        if h5ish(base) and (name in PLAIN_ATTRS or name == "attrs"):
            self.access(it, st, "." + name, node)
        return None

    def getitem(self, it, st, base, idx, node):
        if self.none_use(it, st, base, node, "[]", "TypeError"):
            return []
        if h5ish(base) and base.tag != "tup":
            self.access(it, st, "[...]", node)
            self.args_raw(it, st, [idx], node, "[...]")
        return None

    def setitem(self, it, st, base, idx, val, node):
        if self.none_use(it, st, base, node, "[]=", "TypeError"):
            return []
        if h5ish(base):
            self.access(it, st, "[...] = ...", node, mutating=True)
            self.args_raw(it, st, [idx], node, "[...] = ...")
        return None

    def delitem(self, it, st, base, idx, node):
        if self.none_use(it, st, base, node, "del", "TypeError"):
            return []
        if h5ish(base):
            self.access(it, st, "del [...]", node, mutating=True)
            self.args_raw(it, st, [idx], node, "del [...]")
        return None

    def contains(self, it, st, x, coll, node):
        if self.none_use(it, st, coll, node, "in", "TypeError"):
            return []
        if h5ish(coll):
            self.access(it, st, "in", node)
            self.args_raw(it, st, [x], node, "in")
        return None

    def iterate(self, it, st, v, node):
        if h5ish(v) and v.tag != "tup":
            self.access(it, st, "iteration", node)
        return None


# ---------------------------------------------------------------- running


def operations(ctx):
    """Entry points of File other than the ones managing the object."""
    it = Interp(ctx.prog)
    ops = []
    for name, fi, kind in class_functions(it, FILE):
        public = not name.startswith("_") or (name.startswith("__") and name.endswith("__"))
        if public and name not in MANAGE:
            ops.append((name, fi))
    return sorted(ops, key=lambda x: x[0])


def raw_of(fi):
    return {sym(n) for n in fi.params[1:] if n not in ("data", "value")}


def run_op(ctx, base, fi, world, closed_fields, rules, start=None, tells=()):
    st0, obj = base
    args, kw = sym_args(fi)
    entry = fi.qual

    def make():
        p = FileProp(ctx, entry, obj, world, closed_fields, rules, raw_of(fi))
        p.tells = tells
        return p

    def build(it):
        st = st0.fork()
        if start:
            start(it, st)
        return st, [obj] + args, kw

    return ctx.run(fn(fi.qual), make, build)


def drive(it, prop, st, v):
    """Consumes a returned generator like the caller would."""
    from sa.interp import Out
    import ast
    node = ast.Pass()
    node.lineno = node.col_offset = 0

    yielded = []

    def body(x, el):
        if x.p.get("lk"):
            prop.bad(it, x, "C01.yield", "yield",
                     "the lock is held while control is given back to the caller", node)
        yielded.append((x, el))
        return [Out("n", x)]

    fi = it.prog.funcs.get(it.obj(st, v).data[0].args[0]) if it.obj(st, v).kind == "gen" else None
    from sa.interp import Frame
    fr = Frame("<entry>", None, it.prog.modules["hdf5storage"])
    it.frames = []
    it.push(fr)
    it.rcol = []
    it.try_depth = 0
    it.stack = []
    done, brk, other = it.iterate(v, st, node, fr, body)
    return done + brk, it.rcol, yielded


def expand(it, prop, rets, raises):
    """Outcomes with returned generators consumed."""
    out_r, out_x = [], list(raises)
    for st, v in rets:
        o = it.obj(st, v)
        if o is not None and o.kind in ("gen", "genexp"):
            done, rs, yielded = drive(it, prop, st, v)
            out_r.extend((x, T("generated")) for x in done)
            out_x.extend(rs)
        else:
            out_r.append((st, v))
    return out_r, out_x


def closed_fields_of(ctx, base, it0=None):
    """What close() changes: (fields, handles closed)."""
    st0, obj = base
    fi = ctx.prog.func(FILE + ".close")

    def make():
        return FileProp(ctx, fi.qual, obj, "close", None, ())

    it, prop, rets, raises = ctx.run(fn(fi.qual), make, lambda it: (st0.fork(), [obj], []))
    for st, v in rets:
        if st.p.get("shut"):
            old, new = it.obj(st0, obj).data, it.obj(st, obj).data
            return {k: w for k, w in new.items() if old.get(k) is not w}, st.p["shut"], st
    return None


def check_c01(ctx):
    ctx.rule("C01.unlocked", "every access to the h5py.File, anything got from it, or the low level wrapper happens with the File's lock held")
    ctx.rule("C01.relock", "a non reentrant lock is never taken while held")
    ctx.rule("C01.split", "all accesses of one operation are in one hold of the lock")
    ctx.rule("C01.leak", "the lock is released on every exit, exceptional ones included")
    ctx.rule("C01.lazy", "nothing that still reads from the file is returned")
    ctx.rule("C01.yield", "no value is yielded to the caller with the lock held")
    for writable in (True, False):
        for base in file_objects(ctx, writable):
            ops = operations(ctx)
            extra = [(n, f, k) for n, f, k in class_functions(Interp(ctx.prog), FILE)
                     if n in ("__exit__", "__del__", "close", "closed", "__enter__")]
            cf = closed_fields_of(ctx, base)
            for name, fi in ops + [(n, f) for n, f, k in extra]:
                it, prop, rets, raises = run_op(ctx, base, fi, "open" if writable else "read only", None, ("C01",), tells=tuple(cf[0]) if cf else ())
                r2, x2 = expand(it, prop, rets, raises)
                ctx.count("operations_analysed")
                ctx.count("accesses_checked", prop.accesses)
                ctx.count("lock_acquisitions", prop.acquires)
                ctx.count("exits_checked", len(r2) + len(x2))
                for st, v in r2:
                    if st.p.get("lk"):
                        ctx.violation("C01.leak", "%s: return" % fi.qual,
                                      "%s returns with the lock held" % fi.qual, "", st.history())
                    for w in deep_values(it, st, v):
                        if w is base[1]:
                            break
                        o = it.obj(st, w)
                        if h5ish(w) or (o is not None and o.kind in ("gen", "genexp")):
                            ctx.violation(
                                "C01.lazy", "%s: return" % fi.qual,
                                "%s returns %s, which reads from the file after the lock "
                                "was released" % (fi.qual, show(w)), "", st.history())
                for st, e in x2:
                    if st.p.get("lk"):
                        ctx.violation("C01.leak", "%s: %s" % (fi.qual, "exception"),
                                      "%s: an exception leaves %s with the lock held" % (e.site, fi.qual),
                                      e.site, st.history())
    ctx.need("operations_analysed", 20)
    ctx.need("accesses_checked", 20)
    ctx.need("lock_acquisitions", 10)


ALLOWED = ("OSError", "TypeError", "ValueError")


def is_oserror(e):
    n = e.name
    if n is None:
        return False
    import builtins
    c = getattr(builtins, n, None)
    return isinstance(c, type) and issubclass(c, OSError)


def refused_badly(e, argument_errors):
    """Is the exception not an acceptable refusal?"""
    if e.cls is None:
        return False
    if is_oserror(e):
        return False
    return not (e.explicit and e.name in ("TypeError", "ValueError") and e.site in argument_errors)


def check_c02(ctx):
    ctx.rule("C02.closed-access", "no access to the HDF5 file in a state where the File is closed, including when it was closed by another thread before the lock was got")
    ctx.rule("C02.no-error", "every operation on a closed File ends in an exception")
    ctx.rule("C02.wrong-error", "the exception is OSError (or the TypeError or ValueError of an invalid argument)")
    ctx.rule("C02.close", "close() closes the handle, can be repeated, closed tells, and leaving the context closes without swallowing exceptions")
    for writable in (True, False):
        for base in file_objects(ctx, writable):
            st0, obj = base
            cf = closed_fields_of(ctx, base)
            if cf is None:
                ctx.violation("C02.close", FILE + ".close", "close() returns without closing the HDF5 file on every path")
                continue
            fields, shut, st_closed = cf

            def start(it, st):
                o = it.obj(st, obj)
                d = dict(o.data)
                d.update(fields)
                it.put(st, obj, o.with_(data=d))
                st.p["shut"] = shut
                st.p["closed"] = True

            for name, fi in operations(ctx):
                # What's wrong with the arguments is also raised when open.
                it, prop, rets, raises = run_op(ctx, base, fi, "open", None, ())
                r2, x2 = expand(it, prop, rets, raises)
                argument_errors = {e.site for st, e in x2 if e.explicit}
                for world, begin in (("closed", start), ("race", None)):
                    it, prop, rets, raises = run_op(ctx, base, fi, world, (fields, shut), ("C02",), begin)
                    r2, x2 = expand(it, prop, rets, raises)
                    ctx.count("operation_states_analysed")
                    ctx.count("outcomes_checked", len(r2) + len(x2))
                    for st, v in r2:
                        if not st.p.get("closed"):
                            continue
                        ctx.violation("C02.no-error", "%s (%s)" % (fi.qual, world),
                                      "%s returns %s although the File is closed (%s)" % (fi.qual, show(v), world),
                                      "", st.history())
                    for st, e in x2:
                        if st.p.get("closed") and refused_badly(e, argument_errors):
                            ctx.violation("C02.wrong-error", "%s (%s): %s" % (fi.qual, world, e.name),
                                          "%s: %s raises %s instead of OSError although the File is closed (%s)"
                                          % (e.site, fi.qual, e.name, world), e.site, st.history())
            close_rules(ctx, base, fields, shut, start)
    ctx.need("operation_states_analysed", 30)


def close_rules(ctx, base, fields, shut, start):
    st0, obj = base
    close = ctx.prog.func(FILE + ".close")
    # close() leaves no path open.
    it, prop, rets, raises = run_op(ctx, base, close, "open", None, ())
    for st, v in rets:
        if not st.p.get("shut"):
            ctx.violation("C02.close", close.qual + ": leaves it open", "close() returns without closing the HDF5 file", "", st.history())
    # Closing again is fine.
    it, prop, rets, raises = run_op(ctx, base, close, "closed", None, (), start)
    if not rets:
        ctx.violation("C02.close", close.qual + ": again", "close() of a closed File doesn't return")
    for st, e in raises:
        if e.explicit or e.name is not None:
            ctx.violation("C02.close", close.qual + ": again", "%s: close() of a closed File raises %s" % (e.site, e.name), e.site, st.history())
    # closed tells.
    m = Interp(ctx.prog).find_member(FILE, "closed")
    if isinstance(m, PropInfo) and m.fget is not None:
        for world, begin, want in (("open", None, False), ("closed", start, True)):
            it, prop, rets, raises = run_op(ctx, base, m.fget, world, None, (), begin)
            for st, v in rets:
                got = it.truth(v, st)
                if got is not None and got is not want:
                    ctx.violation("C02.close", m.fget.qual, "closed is %s on a File that is %s" % (got, world), "", st.history())
                ctx.count("outcomes_checked")
    else:
        raise AnalysisBroken("File.closed is gone")
    # Context manager.
    ex = ctx.prog.func(FILE + ".__exit__")
    it, prop, rets, raises = run_op(ctx, base, ex, "open", None, ())
    for st, v in rets:
        if not st.p.get("shut"):
            ctx.violation("C02.close", ex.qual + ": leaves it open", "__exit__ returns without closing the HDF5 file", "", st.history())
        if it.truth(v, st) is not False:
            ctx.violation("C02.close", ex.qual + ": swallows", "__exit__ returns %s, exceptions of the with block may be swallowed" % show(v), "", st.history())
    en = ctx.prog.func(FILE + ".__enter__")
    it, prop, rets, raises = run_op(ctx, base, en, "open", None, ())
    for st, v in rets:
        if v is not obj:
            ctx.violation("C02.close", en.qual, "__enter__ returns %s rather than the File" % show(v), "", st.history())
    de = Interp(ctx.prog).find_member(FILE, "__del__")
    if isinstance(de, tuple):
        it, prop, rets, raises = run_op(ctx, base, de[1], "open", None, ())
        for st, v in rets:
            if not st.p.get("shut") and not any("raises" in h for h in st.history()):
                ctx.violation("C02.close", de[1].qual, "the finaliser doesn't close the HDF5 file", "", st.history())


def check_c03(ctx):
    ctx.rule("C03.mode", "without writable the file is opened in mode 'r' only")
    ctx.rule("C03.no-error", "an operation that modifies a writable file ends in an exception on a read only File")
    ctx.rule("C03.wrong-error", "that exception is OSError")
    ctx.rule("C03.modifies", "nothing modifies the file before")
    modifying = {}
    for base in file_objects(ctx, True):
        for name, fi in operations(ctx):
            it, prop, rets, raises = run_op(ctx, base, fi, "open", None, ())
            r2, x2 = expand(it, prop, rets, raises)
            if prop.mutations:
                modifying[name] = fi, {e.site for st, e in x2 if e.explicit}
            ctx.count("operations_classified")
    ctx.count("modifying_operations", len(modifying))
    ctx.sample("modifying: " + ", ".join(sorted(modifying)))
    # The mode.
    settings = sym("truncate_existing"), sym("truncate_invalid_matlab")
    it, prop, rets, raises = ctx.run(T("cls", FILE), lambda: OpenProp(), ctor_args(False, True, *settings))
    for st, o in rets:
        for term, mode, opts, facts in st.p.get("opens", ()):
            ctx.count("opens_checked")
            if mode is None or not is_c(mode):
                ctx.note_undecided("mode %s" % mode)
            elif cval(mode) != "r":
                ctx.violation("C03.mode", FILE + ".__init__", "a File that isn't writable opens the file in mode %r" % cval(mode), "", st.history())
        if st.p.get("written"):
            ctx.violation("C03.mode", FILE + ".__init__: write", "a File that isn't writable writes to the file", "", st.history())
    for base in file_objects(ctx, False):
        for name, fi in operations(ctx):
            it, prop, rets, raises = run_op(ctx, base, fi, "read only", None, ("C03",))
            r2, x2 = expand(it, prop, rets, raises)
            if name not in modifying:
                continue
            argument_errors = modifying[name][1]
            ctx.count("outcomes_checked", len(r2) + len(x2))
            for st, v in r2:
                ctx.violation("C03.no-error", fi.qual, "%s returns although the file isn't writable" % fi.qual, "", st.history())
            for st, e in x2:
                if refused_badly(e, argument_errors):
                    ctx.violation("C03.wrong-error", "%s: %s" % (fi.qual, e.name),
                                  "%s: %s raises %s instead of OSError on a read only File" % (e.site, fi.qual, e.name), e.site, st.history())
    ctx.need("modifying_operations", 4)
    ctx.need("opens_checked", 1)


def check_c07(ctx):
    ctx.rule("C07.late", "no path is processed after the file was accessed")
    ctx.rule("C07.raw", "no path reaches the file without having been processed")
    n = 0
    for base in file_objects(ctx, True):
        for name, fi in operations(ctx):
            it, prop, rets, raises = run_op(ctx, base, fi, "open", None, ("C07",))
            expand(it, prop, rets, raises)
            ctx.count("operations_analysed")
            ctx.count("accesses_checked", prop.accesses)
            n += prop.accesses
    ctx.need("accesses_checked", 10)


# ------------------------------------------------------------ constructor


class OpenProp(Property):
    """Opening, closing and header writing in the constructor."""

    cap = 64
    track_implicit_raises = False

    def key(self, it, st):
        return tuple(sorted((k, v) for k, v in st.p.items() if k != "opens")) + (len(st.p.get("opens", ())),) + tuple(
            o[:3] for o in st.p.get("opens", ()))

    def call(self, it, st, f, args, kw, node, fr):
        if f is H5FILE:
            d = dict(kw)
            mode = args[1] if len(args) > 1 else d.get("mode", C("r"))
            t = T("call", f, tuple(args), tuple(kw), "%d@%s" % (st.fresh(), it.here(node)))
            facts = frozenset((a, b) for a, b in st.facts.items())
            st.p["opens"] = st.p.get("opens", ()) + ((t, mode, tuple((k, v) for k, v in kw), facts),)
            st.p["live"] = st.p.get("live", ()) + (t,)
            st.note("%s: h5py.File opened in mode %s" % (it.loc(node), show(mode)))
            return [(st, t)]
        if f.tag == "attr" and f.args[1] == "close" and is_handle(f.args[0]):
            st.p["live"] = tuple(x for x in st.p.get("live", ()) if x is not f.args[0])
            st.p["shut"] = st.p.get("shut", ()) + (f.args[0],)
            st.note("%s: h5py.File closed" % it.loc(node))
            return [(st, NONE)]
        if f is ext("builtins.open"):
            t = T("call", f, tuple(args), tuple(kw), "%d@%s" % (st.fresh(), it.here(node)))
            return [(st, t)]
        return None
