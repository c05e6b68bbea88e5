"""The functions around File: write, writes, read, reads, savemat, loadmat."""

from .common import *

MOD = "hdf5storage"


def dotted(t):
    """Dotted name of something imported, however it was."""
    if t.tag == "ext":
        return t.args[0]
    if t.tag == "mod":
        return t.args[0]
    if t.tag == "call" and t.args[0].tag == "ext" and t.args[0].args[0] in (
            "importlib.import_module", "builtins.__import__") and t.args[1]:
        return pyval_or(t.args[1][0])
    if t.tag == "attr":
        b = dotted(t.args[0])
        return b + "." + t.args[1] if isinstance(b, str) else None
    return None


def bind(it, q, args, kw):
    """{parameter: value} of a call, defaults dropped; None when unknown."""
    fi = it.prog.funcs[q]
    names = fi.params[1:]
    out, extra = {}, []
    if any(isinstance(a, Term) and a.tag == "star" for a in args) or len(args) > len(names):
        return None
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw:
        if k is None:
            extra.append(v)
        elif k in out:
            return None
        else:
            out[k] = v
    import ast
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    for n, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant) and n in out and out[n] is C(d.value):
            del out[n]
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if isinstance(d, ast.Constant) and out.get(x.arg) is C(d.value):
            del out[x.arg]
    return out, extra


class Use(Property):
    """Records how a File is opened, used and closed.

    st.p["ev"]: ("open", bound args), ("op", name, args, kw, result), ("close",)
                ("scipy", name, args, kw)
    """

    cap = 32
    track_implicit_raises = True

    def __init__(self, ctx, fail_open=False):
        self.ctx = ctx
        self.fail_open = fail_open

    def key(self, it, st):
        return st.p.get("ev")

    def ev(self, st, *e):
        st.p["ev"] = st.p.get("ev", ()) + (e,)

    def fileobj(self, it, st, t):
        o = it.obj(st, t)
        return o is not None and o.kind == "inst" and FILE in it.mro(o.cls)

    def call(self, it, st, f, args, kw, node, fr):
        if f.tag == "cls" and FILE in it.mro(f.args[0]):
            b = bind(it, FILE + ".__init__", args, kw)
            opts = None
            if b is not None:
                opts = self.options(it, st, b[0].get("options"))
                b = (tuple(sorted(b[0].items())), tuple(b[1]))
            st.note("%s: File opened" % it.loc(node))
            x = st.fork()
            self.ev(x, "open failed", b, opts)
            it.throw_named(x, "OSError", node, fr, explicit=False)
            x = st.fork()
            self.ev(x, "open failed", b, opts)
            it.throw_named(x, "ValueError", node, fr, explicit=False)
            self.ev(st, "open", b, opts)
            o = it.alloc(st, Obj("inst", cls=FILE, data={}), node)
            return [(st, o)]
        recv, name = None, None
        if f.tag == "bm" and f.args[1].tag == "fn" and self.fileobj(it, st, f.args[0]):
            recv, name = f.args[0], f.args[1].args[0].split(".")[-1]
        elif f.tag == "fn" and args and f.args[0].startswith(FILE + ".") and self.fileobj(it, st, args[0]):
            recv, name, args = args[0], f.args[0].split(".")[-1], args[1:]
        elif f.tag == "attr" and self.fileobj(it, st, f.args[0]):
            recv, name = f.args[0], f.args[1]
        if recv is not None:
            if name == "__enter__":
                return [(st, recv)]
            if name in ("__exit__", "close"):
                self.ev(st, "close")
                st.note("%s: File closed" % it.loc(node))
                return [(st, NONE)]
            it.throw(self.failed(st, name), Exc(None, T("top"), it.here(node), False), node, fr)
            it.throw_named(self.failed(st, name), "OSError", node, fr, explicit=False)
            it.throw_named(self.failed(st, name), "KeyError", node, fr, explicit=False)
            t = T("call", T("fileop", name), tuple(args), tuple(kw))
            self.ev(st, "op", name, tuple(self.freeze(it, st, a) for a in args),
                    tuple((k, self.freeze(it, st, v)) for k, v in kw), t)
            st.note("%s: File.%s" % (it.loc(node), name))
            return [(st, t)]
        n = dotted(f)
        if n in ("scipy.io.savemat", "scipy.io.loadmat"):
            t = T("call", ext(n), tuple(args), tuple(kw))
            self.ev(st, "scipy", n, tuple(args), tuple(sorted(kw, key=lambda x: str(x[0]))), t)
            return [(st, t)]
        return None

    def may_raise(self, it, st, f, node):
        # Only opening and using the File fail here.
        return False

    def failed(self, st, name):
        x = st.fork()
        self.ev(x, "op failed", name)
        return x

    def freeze(self, it, st, t):
        o = it.obj(st, t)
        if o is not None and o.kind == "dict":
            return T("dict", *[T("tup", k, v[0]) for k, v in o.data.items()])
        if o is not None and o.kind == "list":
            return T("tup", *[x[0] for x in o.data])
        return t

    def options(self, it, st, t):
        """((option, value), ...) of an Options object made here."""
        if t is None:
            return None
        o = it.obj(st, t)
        if o is None or o.kind != "inst" or o.lazy is not None:
            return None
        out = []
        for name, m in sorted(it.prog.classes[OPTIONS].members.items()):
            if isinstance(m, PropInfo) and m.fget is not None:
                res = it.call(T("bm", t, it.fn_term(m.fget)), [], [], st.fork(), None, it.frames[-1])
                if len(res) == 1:
                    out.append((name, res[0][1]))
        return tuple(out)

    def getitem(self, it, st, base, idx, node):
        if self.fileobj(it, st, base):
            t = T("call", T("fileop", "read"), (idx,), ())
            it.throw(self.failed(st, "read"), Exc(None, T("top"), it.here(node), False), node, it.frames[-1])
            self.ev(st, "op", "read", (idx,), (), t)
            return [(st, t)]
        return None


def norm_op(ops):
    """An operation in the form (kind, ...) its spellings share."""
    name, args, kw = ops
    d = dict(kw)
    if name in ("write", "__setitem__"):
        order = ("data", "path") if name == "write" else ("path", "data")
        for n, a in zip(order, args):
            d[n] = a
        return ("write", ((d.get("path", C("/")), d.get("data")),))
    if name == "writes":
        m = args[0] if args else d.get("mdict")
        if m is not None and m.tag == "dict":
            return ("write", tuple((x.args[0], x.args[1]) for x in m.args))
        return ("writes", m)
    if name in ("read", "__getitem__"):
        return ("read", (args[0] if args else d.get("path", C("/")),))
    if name == "reads":
        p = args[0] if args else d.get("paths")
        if p is not None and p.tag == "tup":
            return ("read", p.args)
        return ("reads", p)
    return (name,) + tuple(args)


def opened_with(e):
    return dict(e[1][0]) if e[1] is not None else None


def check_c06(ctx):
    ctx.rule("C06.closed", "every File opened is closed on every exit, also when the operation fails")
    ctx.rule("C06.opened", "the File is opened with exactly the arguments given, writable for writing and read only for reading; reading is not MATLAB compatible unless asked for")
    ctx.rule("C06.operation", "the one operation asked for is done on it with the data and paths given, its result returned and its failure passed on")
    ctx.rule("C06.dispatch", "formats before 7.3 and files that can't be opened go to scipy with all arguments it uses, everything else doesn't")
    ctx.rule("C06.name", "'.mat' is appended iff appendmat is set and the name doesn't end in it")
    simple(ctx)
    savemat(ctx)
    loadmat(ctx)
    ctx.need("entry_points", 6)
    ctx.need("exits_checked", 20)


def run_conv(ctx, name, args, kw):
    q = MOD + "." + name
    ctx.prog.func(q)

    def build(it):
        st = State()
        k = []
        for n, v in kw:
            k.append((n, v(it, st) if callable(v) else v))
        return st, list(args), k

    it, prop, rets, raises = ctx.run(fn(q), lambda: Use(ctx), build)
    ctx.count("calls_analysed")
    ctx.count("exits_checked", len(rets) + len(raises))
    for st in [s for s, v in rets] + [s for s, e in raises]:
        evs = st.p.get("ev", ())
        n_open = sum(e[0] == "open" for e in evs)
        n_close = sum(e[0] == "close" for e in evs)
        if n_open > n_close:
            ctx.violation("C06.closed", q, "%s may end without closing the File" % name, "", st.history())
    return it, q, rets, raises


def simple(ctx):
    data, mdict, path, paths = sym("data"), sym("mdict"), sym("path"), sym("paths")
    table = [
        ("write", [data, path], ("write", ((path, data),)), True, None),
        ("write", [data], ("write", ((C("/"), data),)), True, None),
        ("writes", [mdict], ("writes", mdict), True, None),
        ("read", [path], ("read", (path,)), False, "read"),
        ("read", [], ("read", (C("/"),)), False, "read"),
        ("reads", [paths], ("reads", paths), False, "reads"),
    ]
    kws = [
        (),
        (("filename", typed("filename", "builtins.str")),),
        (("filename", typed("filename", "builtins.str")), ("matlab_compatible", sym("mc"))),
        (("options", sym("options")), ("filename", typed("filename", "builtins.str"))),
        (("options", NONE), ("oned_as", sym("oned_as"))),
        (("truncate_existing", sym("te")), ("truncate_invalid_matlab", sym("ti"))),
    ]
    for name, args, op, writes, result in table:
        ctx.count("entry_points")
        for kw in kws:
            it, q, rets, raises = run_conv(ctx, name, args, kw)
            given = dict(kw)
            want = {k: v for k, v in given.items() if not (k == "options" and v is NONE)}
            if writes:
                want["writable"] = TRUE
            elif "matlab_compatible" not in given and given.get("options", NONE) is NONE:
                want["matlab_compatible"] = FALSE
            what = "%s(%s)" % (name, ", ".join(sorted(given)))
            for st in [s for s, v in rets] + [s for s, e in raises]:
                for e in st.p.get("ev", ()):
                    if e[0] in ("open", "open failed"):
                        got = opened_with(e)
                        ctx.count("opens_checked")
                        if got is None or e[1][1]:
                            ctx.note_undecided("arguments of File in %s" % what)
                        elif not same_args(st, got, want, given):
                            ctx.violation("C06.opened", q, "%s opens a File with %s rather than %s"
                                          % (what, show_args(got), show_args(want)), "", st.history())
            if not rets:
                ctx.violation("C06.operation", q, "%s never returns" % what)
            for st, v in rets:
                evs = st.p.get("ev", ())
                ops = [norm_op(e[1:4]) for e in evs if e[0] == "op"]
                opt = st.facts.get(T("cmp", "is", NONE, sym("options")))
                if any(e[0] in ("op failed", "open failed") for e in evs):
                    ctx.violation("C06.operation", q, "%s returns although the operation failed" % what, "", st.history())
                elif ops != [op]:
                    ctx.violation("C06.operation", q, "%s does %s" % (what, ops), "", st.history())
                elif result is not None:
                    rs = [e[4] for e in evs if e[0] == "op"]
                    single = T("item", rs[0], C(0))
                    wantv = rs[0]
                    opname = [e[1] for e in evs if e[0] == "op"][0]
                    if result == "read" and opname == "reads":
                        wantv = single
                    if v is not wantv and not (result == "reads" and v.tag == "call" and v.args[1] and v.args[1][0] is wantv):
                        ctx.violation("C06.operation", q + ": result", "%s returns %s" % (what, show(v)), "", st.history())


def same_args(st, got, want, given):
    got = dict(got)
    if given.get("options", NONE) is NONE and got.get("options") is NONE:
        del got["options"]
    if got == want:
        return True
    # An options argument that may be None counts as not given.
    o = given.get("options")
    if o is not None and o is not NONE:
        w = dict(want)
        w["matlab_compatible"] = FALSE
        if st.facts.get(T("cmp", "is", NONE, o)) is True or st.facts.get(T("truth", o)) is False:
            for v in (o, NONE):
                w["options"] = v
                if got == w:
                    return True
            del w["options"]
            return got == w
    return False


def show_args(d):
    return "{%s}" % ", ".join("%s=%s" % (k, show(v)) for k, v in sorted(d.items()))


FILENAMES = (("file", True, "file.mat"), ("file.mat", True, "file.mat"), ("file", False, "file"),
             ("file.mat", False, "file.mat"), ("file.mat.old", True, "file.mat.old.mat"),
             ("file.MAT", True, "file.MAT.mat"), ("file.Mat", True, "file.Mat.mat"), (".mat", True, ".mat"), ("mat", True, "mat.mat"), ("a.mat/b", True, "a.mat/b.mat"),
             ("file.h5", True, "file.h5.mat"), ("file.hdf5", True, "file.hdf5.mat"), ("file.matx", True, "file.matx.mat"), ("file. mat", True, "file. mat.mat"),
             ("file.mat ", True, "file.mat .mat"), ("file.mat.mat", True, "file.mat.mat"), ("file.", True, "file..mat"), ("file.MAT", False, "file.MAT"))


def savemat(ctx):
    ctx.count("entry_points")
    mdict = sym("mdict")
    mc = sym("collection")

    def collection(it, st):
        return obj_of(it, st, MC, lazy=mc)

    base = [("oned_as", C("column")), ("store_python_metadata", FALSE),
            ("action_for_matlab_incompatible", C("ignore"))]
    for fmt in ("7.3", 7.3, "8", "5", "4"):
        ours = float(fmt) >= 7.3
        for name, append, want in FILENAMES:
            kw = [("appendmat", C(append)), ("format", C(fmt)), ("truncate_existing", sym("te")),
                  ("truncate_invalid_matlab", sym("ti")), ("marshaller_collection", collection),
                  ("do_compression", sym("comp"))] + base
            it, q, rets, raises = run_conv(ctx, "savemat", [C(name), mdict], kw)
            what = "savemat(%r, appendmat=%s, format=%r)" % (name, append, fmt)
            if not rets:
                ctx.violation("C06.operation", q, "%s never returns" % what)
            for st, e in raises:
                if e.explicit and not any(x[0] in ("open failed", "op failed") for x in st.p.get("ev", ())):
                    ctx.violation("C06.operation", q + ": raises", "%s raises %s at %s" % (what, e.name, e.site), e.site, st.history())
            for st, v in rets:
                evs = st.p.get("ev", ())
                if any(e[0] in ("op failed", "open failed") for e in evs):
                    ctx.violation("C06.operation", q, "%s returns although the operation failed" % what, "", st.history())
                    continue
                sci = [e for e in evs if e[0] == "scipy"]
                ops = [norm_op(e[1:4]) for e in evs if e[0] == "op"]
                if not ours:
                    if ops or len(sci) != 1 or sci[0][1] != "scipy.io.savemat":
                        ctx.violation("C06.dispatch", q, "%s isn't passed on to scipy" % what, "", st.history())
                        continue
                    got = bind_scipy(sci[0], ("file_name", "mdict", "appendmat", "format", "long_field_names", "do_compression", "oned_as"))
                    if got is None:
                        ctx.note_undecided("arguments of scipy.io.savemat")
                        continue
                    w = {"file_name": C(name), "mdict": mdict, "appendmat": C(append), "format": C(fmt),
                         "oned_as": C("column"), "do_compression": sym("comp")}
                    if got != w and not ({**got, "file_name": C(name)} == w and got["file_name"] is C(want)):
                        ctx.violation("C06.dispatch", q + ": arguments", "%s passes %s to scipy.io.savemat" % (what, show_args(got)), "", st.history())
                    continue
                if sci:
                    ctx.violation("C06.dispatch", q, "%s is passed on to scipy" % what, "", st.history())
                    continue
                if ops != [("writes", mdict)]:
                    ctx.violation("C06.operation", q, "%s does %s" % (what, ops), "", st.history())
                for e in evs:
                    if e[0] != "open":
                        continue
                    got = opened_with(e)
                    if got is None or e[1][1]:
                        ctx.note_undecided("arguments of File in %s" % what)
                        continue
                    ctx.count("opens_checked")
                    if got.get("filename") is not C(want):
                        ctx.violation("C06.name", q, "%s opens %s" % (what, show(got.get("filename", C("data.h5")))), "", st.history())
                    for k, s in (("truncate_existing", sym("te")), ("truncate_invalid_matlab", sym("ti")), ("writable", TRUE)):
                        if got.get(k) is not s:
                            ctx.violation("C06.opened", q + ": " + k, "%s opens the File with %s=%s" % (what, k, show(got[k]) if k in got else "its default"), "", st.history())
                    opts = dict(e[2]) if e[2] is not None else {k: v for k, v in got.items()}
                    for k, s in base + [("matlab_compatible", TRUE)]:
                        if k in opts and opts[k] is not s or (e[2] is None and k != "matlab_compatible" and k not in opts):
                            ctx.violation("C06.opened", q + ": " + k, "%s opens the File with the option %s=%s" % (what, k, show(opts[k]) if k in opts else "its default"), "", st.history())
                    m = opts.get("marshaller_collection")
                    mo = it.obj(st, m) if m is not None else None
                    if (mo.lazy is not mc) if mo is not None else (m is None or m.tag in ("item", "call", "c", "global")):
                        ctx.violation("C06.opened", q + ": marshaller_collection", "%s doesn't use the collection given" % what, "", st.history())


def bind_scipy(e, names):
    out = {}
    for n, a in zip(names, e[2]):
        if a.tag == "star":
            return None
        out[n] = a
    for k, v in e[3]:
        if k is None:
            return None
        out[k] = v
    return out


def loadmat(ctx):
    ctx.count("entry_points")
    opts = sym("options")

    def options(it, st):
        return obj_of(it, st, OPTIONS, lazy=opts)

    names = T("tup", sym("v1"), sym("v2"))
    for name, append, want in FILENAMES:
        for vn in (NONE, names, T("tup", C("v1")), T("tup")):
            for md in (NONE, "given"):
                def given(it, st):
                    return it.alloc(st, Obj("dict", data={}))
                kw = [("appendmat", C(append)), ("variable_names", vn), ("options", options), ("chars_as_strings", sym("cs"))]
                kw.append(("mdict", given if md == "given" else NONE))
                it, q, rets, raises = run_conv(ctx, "loadmat", [C(name)], kw)
                what = "loadmat(%r, appendmat=%s, variable_names=%s, mdict=%s)" % (name, append, "None" if vn is NONE else show(vn), "None" if md is NONE else "{}")
                ok = False
                for st, v in rets:
                    evs = st.p.get("ev", ())
                    sci = [e for e in evs if e[0] == "scipy"]
                    failed = [e for e in evs if e[0] == "open failed"]
                    if failed:
                        if not sci:
                            ctx.violation("C06.dispatch", q, "%s returns without passing a file that can't be opened on to scipy" % what, "", st.history())
                            continue
                        got = bind_scipy(sci[0], ("file_name", "mdict", "appendmat"))
                        if got is None:
                            ctx.note_undecided("arguments of scipy.io.loadmat")
                            continue
                        md_t = got.pop("mdict", NONE)
                        w = {"file_name": C(name), "appendmat": C(append), "variable_names": vn, "chars_as_strings": sym("cs")}
                        alt = {**w, "file_name": C(want)}
                        if got not in (w, alt) or (md is NONE) != (md_t is NONE):
                            ctx.violation("C06.dispatch", q + ": arguments", "%s passes %s to scipy.io.loadmat" % (what, show_args(got)), "", st.history())
                        elif v is not sci[0][4]:
                            ctx.violation("C06.dispatch", q + ": result", "%s doesn't return what scipy did" % what, "", st.history())
                        continue
                    if sci and not any(e[0] == "op failed" for e in evs):
                        ctx.violation("C06.dispatch", q, "%s passes a readable file on to scipy" % what, "", st.history())
                        continue
                    if sci:
                        continue
                    for e in evs:
                        if e[0] == "open":
                            got = opened_with(e)
                            if got is None or e[1][1]:
                                ctx.note_undecided("arguments of File in %s" % what)
                                continue
                            ctx.count("opens_checked")
                            if got.get("filename") is not C(want):
                                ctx.violation("C06.name", q, "%s opens %s" % (what, show(got.get("filename", C("data.h5")))), "", st.history())
                            o = it.obj(st, got["options"]) if "options" in got else None
                            if "writable" in got or "truncate_existing" in got or o is None or o.lazy is not opts:
                                ctx.violation("C06.opened", q, "%s opens the File with %s" % (what, show_args(got)), "", st.history())
                    ops = [norm_op(e[1:4]) for e in evs if e[0] == "op"]
                    res = it.obj(st, v)
                    if res is None or res.kind != "dict":
                        ctx.note_undecided("result of %s" % what)
                        continue
                    if md == "given" and v is not dict_arg(it, st):
                        ctx.violation("C06.operation", q + ": mdict", "%s returns another dict than the one given" % what, "", st.history())
                    if vn is not NONE:
                        done = {o[1][0]: e[4] for o, e in zip(ops, [e for e in evs if e[0] == "op"]) if o[0] == "read"}
                        bad = [o for o in ops if o[0] != "read"]
                        n_failed = sum(e[0] == "op failed" for e in evs)
                        if bad or len(done) + n_failed != len(vn.args):
                            ctx.violation("C06.operation", q, "%s does %s" % (what, ops), "", st.history())
                        else:
                            got = {k: w[0] for k, w in res.data.items()}
                            if got != done:
                                ctx.violation("C06.operation", q + ": names", "%s gives %s for the reads %s" % (what, show_args({show(k): w for k, w in got.items()}), show_args({show(k): w for k, w in done.items()})), "", st.history())
                            else:
                                ok = True
                    else:
                        ok = ok or not any(e[0] == "op failed" for e in evs)
                        for k in res.data:
                            raw = k
                            esc = any(x.tag == "call" and x.args[0].tag == "fn" and x.args[0].args[0].endswith("unescape_path") for x in walk(k))
                            if k.tag in ("key", "item", "iter") and not esc:
                                ctx.violation("C06.operation", q + ": names", "%s gives the name %s, which isn't unescaped" % (what, show(raw)), "", st.history())
                if not ok:
                    ctx.violation("C06.operation", q, "%s never returns what was read" % what)
                for st, e in raises:
                    evs = st.p.get("ev", ())
                    if e.name is not None and is_os(e) and any(x[0] == "open failed" for x in evs) and not any(x[0] == "scipy" for x in evs):
                        ctx.violation("C06.dispatch", q, "%s: a file that can't be opened isn't passed on to scipy" % what, e.site, st.history())


def is_os(e):
    return e.name in ("OSError", "IOError", "EnvironmentError")


def dict_arg(it, st):
    for k in st.heap:
        if k.endswith("@?") and st.heap[k].kind == "dict":
            return T("obj", k)
    return None
