"""Rules about the references group and what writing deletes (C08, C09)."""

import posixpath

from .common import *
from .h5world import DATASET, GROUP, H5World, node, resolve_path, tree

DICT_M = "hdf5storage.Marshallers.PythonDictMarshaller"
ARRAY_M = "hdf5storage.Marshallers.NumpyScalarArrayMarshaller"


class FileWorld(H5World):
    """A File on a known HDF5 file; data isn't looked into."""

    cap = 16

    def __init__(self, start):
        self.start = start

    def call(self, it, st, f, args, kw, n, fr):
        if f is H5FILE:
            return [(st, node("/"))]
        if f.tag == "attr" and f.args[0].tag == "h5" and f.args[1] in ("close", "flush"):
            return [(st, NONE)]
        if f.tag == "bm" and f.args[1].tag == "fn" and f.args[1].args[0].startswith(LLF + ".") and f.args[1].args[0] != LLF + ".__init__":
            name = f.args[1].args[0].split(".")[-1]
            self.ev(st, name, *args[:3])
            return [(st, T("call", f, tuple(args), tuple(kw), "%d" % st.fresh()))]
        return H5World.call(self, it, st, f, args, kw, n, fr)

    def may_raise(self, it, st, f, n):
        return False


def file_in(ctx, world, **settings):
    """(state, File object) of a writable File on the world's file."""
    st0, o0 = options_objects(ctx, matlab_compatible=False, **settings)[0]

    def build(it):
        st = st0.fork()
        return st, [], [("filename", typed("filename", "builtins.str")), ("writable", TRUE), ("options", o0)]

    it, prop, rets, raises = ctx.run(T("cls", FILE), lambda: FileWorld(world), build)
    if not rets:
        raise AnalysisBroken("the File constructor never returns")
    st, o = rets[0]
    st.p.clear()
    st.trace = None
    return st, o


def relation(refs, path):
    p = resolve_path("/", path)
    if p == refs:
        return "is"
    if p.startswith(refs + "/"):
        return "inside"
    if p == "/":
        return "root"
    if refs.startswith(p + "/"):
        return "above"
    return "other"


# (references group, paths as the user gives them, what they mean)
CASES = [
    ("/#refs#", ["/#refs#", "#refs#", "/#refs#/", "/x/../#refs#", "//#refs#", "/./#refs#",
                 "/#refs#/a", "/#refs#/a/b", "#refs#/a", "/#refs#/../#refs#/b",
                 "/#refs#2", "/#refs", "/#refs#a/b", "/x/#refs#", "/x", "/x/y", "/", "/#REFS#", "/#refs#/../x"]),
    ("/a/b", ["/a/b", "a/b", "/a/b/", "/a/b/c", "/a/b/c/d", "/a/./b", "/a/x/../b/y",
              "/a", "a", "/a/", "/a/x", "/a/bc", "/a/bc/d", "/a/x/b", "/b", "/ab", "/b/a/b", "/", "/x/a/b", "/aa"]),
    ("/a/b/c", ["/a/b/c", "/a/b/c/d", "/a/b", "/a", "/a/b/x", "/a/x", "/a/b/cd", "/a/c", "/b/c", "/"]),
    ("/x y", ["/x y", "/x y/z", "/x", "/x z"]),
]


def want(rel, op):
    """Must the operation be refused?  None when nothing is promised."""
    if rel in ("is", "inside"):
        return True
    if rel == "above":
        return op != "read"
    if rel == "root":
        return None if op == "delete" else False
    return False


OPS = {
    "write": ("write", lambda p: [sym("data"), p]),
    "writes": ("write", lambda p: [("dict", p)]),
    "__setitem__": ("write", lambda p: [p, sym("data")]),
    "read": ("read", lambda p: [p]),
    "reads": ("read", lambda p: [T("tup", p)]),
    "__getitem__": ("read", lambda p: [p]),
    "__delitem__": ("delete", lambda p: [p]),
}


def run_file(ctx, base, world, name, mkargs):
    m = Interp(ctx.prog).find_member(FILE, name)
    if not (isinstance(m, tuple) and m[0] == "fn"):
        raise AnalysisBroken("File.%s is gone" % name)
    q = m[1].qual

    def build(it):
        st = base[0].fork()
        args = []
        for a in mkargs:
            if isinstance(a, tuple) and a[0] == "dict":
                a = it.alloc(st, Obj("dict", data={p: (sym("data%d" % i), True) for i, p in enumerate(a[1:])}))
            args.append(a)
        return st, [base[1]] + args, []

    it, prop, rets, raises = ctx.run(fn(q), lambda: FileWorld(world), build)
    return q, it, prop, rets, raises


READ_ONLY = {"get", "load", "read_data"}


def touched(st):
    return bool(st.p.get("ev"))


def outcomes(rets, raises):
    """(refused, done): lists of states where a ValueError came before any
    access, and where the file was accessed."""
    refused, done = [], []
    for st, v in rets:
        done.append((st, None))
    for st, e in raises:
        if touched(st):
            done.append((st, e))
        elif e.explicit and e.name is not None and is_value_error(e.name):
            refused.append((st, e))
    return refused, done


def is_value_error(n):
    import builtins
    c = getattr(builtins, n, None)
    return isinstance(c, type) and issubclass(c, ValueError)


def populated(refs):
    return tree("/x/", "/x/y", "/x/#refs#", "/#refs#2", "/#refs", "/#refs#a/", "/#refs#a/b", "/#REFS#", refs + "/", refs + "/a", "/a/", "/a/x/", "/a/x/b",
                "/a/bc/", "/a/bc/d", "/b/", "/b/a/b", "/b/c", "/ab", "/x/a/b", "/aa", "/a/b/x", "/a/b/cd", "/a/c", "/x z")


def check_c08(ctx):
    ctx.rule("C08.refused", "writing, reading or deleting at or inside the references group, and writing or deleting one of its parents but the root, is refused with a ValueError before the file is accessed")
    ctx.rule("C08.allowed", "no other path is refused")
    ctx.rule("C08.several", "one refused path among several refuses all of them before the file is accessed")
    ctx.rule("C08.length", "the length doesn't count the references group and counts all else")
    ctx.rule("C08.iteration", "iterating gives all names at the root but the references group's")
    ctx.rule("C08.read", "reading a group as dict or struct leaves the references group out and nothing else")
    for refs, paths in CASES:
        world = populated(refs)
        base = file_in(ctx, world, group_for_references=refs)
        for op, (kind, mk) in OPS.items():
            for path in paths:
                one_path(ctx, base, world, refs, op, kind, mk, path, C(path))
            for path in paths[:8]:
                one_path(ctx, base, world, refs, op, kind, mk, path, C(path.encode()))
        several(ctx, base, world, refs, paths)
    names(ctx)
    read_groups(ctx)
    ctx.need("paths_checked", 300)
    ctx.need("contents_checked", 8)


def one_path(ctx, base, world, refs, op, kind, mk, path, p):
    # What the path means, '..' resolved.
    rel = relation(refs, posixpath.normpath(posixpath.join("/", path)))
    w = want(rel, kind)
    if w is None:
        return
    q, it, prop, rets, raises = run_file(ctx, base, world, op, mk(p))
    ctx.count("paths_checked")
    refused, done = outcomes(rets, raises)
    if w and done and not refused:
        st, e = done[0]
        ctx.violation("C08.refused", "%s: %s" % (q, rel),
                      "%s(%r) isn't refused with group_for_references=%r, the path %s %s"
                      % (q, path, refs, {"is": "is", "inside": "is inside", "above": "is a parent of"}[rel], "the references group"),
                      "", st.history())
    elif w and not done and not refused and raises:
        st, e = raises[0]
        ctx.violation("C08.refused", "%s: %s, wrong exception" % (q, rel),
                      "%s: %s(%r) raises %s rather than ValueError with group_for_references=%r" % (e.site, q, path, e.name, refs), e.site, st.history())
    elif not w and refused and not done:
        st, e = refused[0]
        ctx.violation("C08.allowed", "%s: %s" % (q, rel),
                      "%s: %s(%r) is refused with group_for_references=%r" % (e.site, q, path, refs), e.site, st.history())
    elif (w and done and refused) or (not w and refused and done):
        ctx.note_undecided("%s(%r) with group_for_references=%r" % (q, path, refs))


def several(ctx, base, world, refs, paths):
    good, bad = C("/x/y"), C(refs + "/q")
    for op, mk in (("writes", lambda a, b: [("dict", a, b)]), ("reads", lambda a, b: [T("tup", a, b)])):
        for a, b in ((good, bad), (bad, good)):
            q, it, prop, rets, raises = run_file(ctx, base, world, op, mk(a, b))
            ctx.count("paths_checked")
            refused, done = outcomes(rets, raises)
            if done and not refused:
                st, e = done[0]
                ctx.violation("C08.several", q, "%s accesses the file although one of the paths (%s, %s) is inside the references group %r"
                              % (q, show(a), show(b), refs), "", st.history())


def names(ctx):
    for refs, entries in (
            ("/#refs#", ["#refs#/", "a", "z"]), ("/#refs#", ["!a", "#refs#/", "a/", "z"]), ("/#refs#", ["#refs#/"]),
            ("/#refs#", ["!a", "b"]), ("/#refs#", []), ("/#refs#", ["#refs", "#refs#/", "#refs#2"]),
            ("/zz", ["a", "b", "zz/"]), ("/a/b", ["a/", "a/b/", "b", "c"]), ("/a/b", ["a/", "b/"]), ("/a/b", ["b"])):
        world = tree(*["/" + e for e in entries])
        base = file_in(ctx, world, group_for_references=refs)
        have = sorted({e.split("/")[0] for e in entries})
        expect = [h for h in have if "/" + h != refs]
        ctx.count("contents_checked")
        q, it, prop, rets, raises = run_file(ctx, base, world, "__len__", [])
        for st, v in rets:
            n = pyval_or(v)
            if n is None:
                ctx.note_undecided("%s returns %s" % (q, show(v)))
            elif n != len(expect):
                ctx.violation("C08.length", q, "the length of a File with %s is %r with group_for_references=%r" % (have, n, refs), "", st.history())
        q, it, prop, rets, raises = run_file(ctx, base, world, "__iter__", [])
        for st, v in rets:
            for got in iterated(it, prop, st, v):
                if got is None:
                    ctx.note_undecided("%s returns %s" % (q, show(v)))
                elif sorted(got) != expect:
                    ctx.violation("C08.iteration", q, "iterating a File with %s gives %s with group_for_references=%r" % (have, got, refs), "", st.history())


def iterated(it, prop, st, v):
    """Lists of names (or None when unknown) an iterator gives."""
    from .file_rules import drive
    o = it.obj(st, v)
    if v.tag == "call" and v.args[0] is ext("builtins.iter") and len(v.args[1]) == 1:
        v = v.args[1][0]
        o = it.obj(st, v)
    if o is not None and o.kind in ("gen", "genexp") or v.tag == "call":
        from sa import models
        from sa.interp import Frame
        import ast
        n = ast.Pass()
        n.lineno = n.col_offset = 0
        fr = Frame("<entry>", None, it.prog.modules["hdf5storage"])
        it.frames = []
        it.push(fr)
        it.rcol, it.try_depth, it.stack = [], 0, []
        out = []
        for x, t in models.collect(it, st, v, n, fr, "list"):
            out.append(const_list(it, x, t))
        return out
    return [const_list(it, st, v)]


def const_list(it, st, v):
    ex = it.exact_items(st, v)
    if ex is None or any(isinstance(e, tuple) for e in ex):
        return None
    try:
        return [pyval(e) for e in ex]
    except NotConst:
        return None


# ------------------------------------------------------- reading of groups


class MarshalWorld(H5World):
    """One marshaller working on a known file, the data itself opaque."""

    cap = 6
    max_steps = 900000

    def __init__(self, start, attrs=None):
        self.start = start
        self.attrs = attrs or {}

    def may_raise(self, it, st, f, n):
        return False

    def call(self, it, st, f, args, kw, n, fr):
        if f.tag == "bm" and f.args[1].tag == "fn":
            q = f.args[1].args[0]
            if q == LLF + ".read_data":
                return self.read_data(it, st, args, dict((k, v) for k, v in kw), n)
            if q == LLF + ".write_data":
                return self.write_data(it, st, args, dict((k, v) for k, v in kw), n)
            if q in (LLF + ".write_object_array", LLF + ".read_object_array", LLF + ".next_unused_ref_group_name"):
                return [(st, T("call", f, tuple(args), tuple(kw), "%d" % st.fresh()))]
        if f is ext("numpy.dtype") and len(args) == 1:
            ex = it.exact_items(st, args[0])
            if ex is not None and all(isinstance(e, Term) and e.tag == "tup" and e.args and is_c(e.args[0]) for e in ex):
                self.ev(st, "fields", tuple(cval(e.args[0]) for e in ex))
        if f.tag == "fn":
            q = f.args[0]
            if q in ("hdf5storage.pathesc.escape_path", "hdf5storage.pathesc.unescape_path") and args:
                # What they do is decided by C24, names that are read here
                # have nothing to unescape.
                if q.endswith(".escape_path") and is_c(args[0]):
                    k = cval(args[0])
                    k = k.decode() if isinstance(k, bytes) else k
                    if isinstance(k, str):
                        return [(st, C(ESCAPED.get(k, k)))]
                return [(st, args[0])]
            if q == "hdf5storage.utilities.convert_to_str" and args and is_c(args[0]):
                v = cval(args[0])
                return [(st, C(v.decode() if isinstance(v, bytes) else v))]
            if q == "hdf5storage.utilities.set_attributes_all":
                return [(st, NONE)]
            if q in self.opaque_fns:
                return [(st, T("call", f, tuple(args), tuple(kw), "%d" % st.fresh()))]
        return H5World.call(self, it, st, f, args, kw, n, fr)

    opaque_fns = frozenset(["hdf5storage.utilities.decode_complex", "hdf5storage.utilities.encode_complex",
                            "hdf5storage.utilities.convert_to_numpy_str", "hdf5storage.utilities.convert_to_numpy_bytes",
                            "hdf5storage.utilities.convert_numpy_str_to_uint16", "hdf5storage.utilities.convert_numpy_str_to_uint32"])

    def read_data(self, it, st, args, kw, n):
        d = dict(zip(("grp", "name", "dsetgrp"), args))
        d.update(kw)
        h = d.get("dsetgrp", NONE)
        if h.tag == "h5":
            p = h.args[0]
        else:
            g, k = d.get("grp", NONE), pyval_or(d.get("name", NONE))
            if g.tag != "h5" or not isinstance(k, str):
                self.ev(st, "read?", d.get("grp", NONE), d.get("name", NONE))
                return [(st, T("data", T("top")))]
            p = resolve_path(g.args[0], k)
            if p not in self.tree(st):
                return self.missing(it, st, k, n)
        self.ev(st, "read", p)
        return [(st, T("data", C(p)))]

    def write_data(self, it, st, args, kw, n):
        d = dict(zip(("grp", "name", "data", "type_string"), args))
        d.update(kw)
        g, k = d.get("grp", NONE), pyval_or(d.get("name", NONE))
        if g.tag != "h5" or not isinstance(k, str):
            self.ev(st, "write?", g, d.get("name", NONE))
            return [(st, T("top"))]
        p = resolve_path(g.args[0], k)
        self.ev(st, "write", p, d.get("data", NONE))
        self.add(st, p, "dataset")
        return [(st, node(p, "dataset"))]


def low_level(ctx, it, st, opts):
    return it.alloc(st, Obj("inst", cls=LLF, data={"_f": node("/"), "_options": opts}))


def llf_fields(ctx, world, st0, o0):
    """(state, LowLevelFile object) of the world's file made by its constructor."""
    def build(it):
        return st0.fork(), [node("/"), o0], []
    it, prop, rets, raises = ctx.run(T("cls", LLF), lambda: MarshalWorld(world), build)
    if not rets:
        raise AnalysisBroken("the LowLevelFile constructor never returns")
    st, o = rets[0]
    st.p.clear()
    return st, o


def marshaller(ctx, cls, st0):
    def build(it):
        return st0.fork(), [], []
    it, prop, rets, raises = ctx.run(T("cls", cls), lambda: MarshalWorld(()), build)
    if not rets:
        raise AnalysisBroken("the constructor of %s never returns" % cls)
    st, o = rets[0]
    st.p.clear()
    return st, o


def setup(ctx, world, cls, **settings):
    """State with Options, LowLevelFile and marshaller objects."""
    st, o = options_objects(ctx, **settings)[0]
    st, f = llf_fields(ctx, world, st, o)
    st, m = marshaller(ctx, cls, st)
    return st, o, f, m


def defaultdict_of(it, st, items):
    return it.alloc(st, Obj("dict", data={C(k): (v, True) for k, v in items.items()},
                            cls=ext("collections.defaultdict"), extra=("default", ext("builtins.NoneType"))))


def result_names(it, st, v):
    """Names of a dict or structured array read, None when unknown."""
    o = it.obj(st, v)
    if o is not None and o.kind == "dict" and o.exact:
        try:
            return sorted(pyval(k) for k in o.data)
        except NotConst:
            return None
    return None


def field_names(st):
    """Fields of the structured array made, None when none is."""
    r = [e[1] for e in st.p.get("ev", ()) if e[0] == "fields"]
    return sorted(r[-1]) if r else None


def read_names(st):
    return sorted({posixpath.basename(e[1]) for e in st.p.get("ev", ()) if e[0] == "read"})


READ_CASES = [
    ("/#refs#", "/", ["/#refs#/", "/a", "/b"]),
    ("/#refs#", "/", ["/!a", "/#refs#/", "/z/"]),
    ("/g/r", "/g", ["/g/a", "/g/r/", "/g/z", "/r/"]),
    ("/g/r", "/g", ["/g/r/", "/g/r2", "/g/r3/"]),
    ("/g/r", "/h", ["/g/r/", "/h/a", "/h/r/"]),
    ("/g/r", "/", ["/g/r/", "/r", "/z"]),
]


def read_groups(ctx):
    for refs, grp, content in READ_CASES:
        world = tree(*content)
        have = sorted({c[len(grp.rstrip("/")) + 1:].rstrip("/").split("/")[0] for c in content if c.startswith(grp.rstrip("/") + "/")})
        expect = [h for h in have if resolve_path(grp, h) != refs]
        for cls, attrs in (
                (DICT_M, {}), (DICT_M, {"Python.Type": "dict", "Python.dict.StoredAs": "individually"}),
                (ARRAY_M, {"MATLAB_class": "struct"}), (ARRAY_M, {})):
            st0, o, f, m = setup(ctx, world, cls, matlab_compatible=False, group_for_references=refs, structs_as_dicts=bool(attrs))

            def build(it):
                st = st0.fork()
                a = defaultdict_of(it, st, {k: C(v) for k, v in attrs.items()})
                return st, [m, f, node(grp), a], []

            q = Interp(ctx.prog).find_member(cls, "read")[1].qual
            it, prop, rets, raises = ctx.run(fn(q), lambda: MarshalWorld(world), build)
            ctx.count("contents_checked")
            if not rets:
                ctx.note_undecided("%s of a group never returns" % q)
            for st, v in rets:
                got = result_names(it, st, v)
                if got is None:
                    got = field_names(st)
                if got is None:
                    ctx.note_undecided("%s returns %s" % (q, show(v)))
                    if any(e[0] == "read?" for e in st.p.get("ev", ())):
                        continue
                    got = read_names(st)
                ctx.count("groups_read")
                if got != expect:
                    ctx.violation("C08.read", q, "%s of a group %s with the members %s gives %s with group_for_references=%r"
                                  % (q, grp, have, got, refs), "", st.history())


# ------------------------------------------------------------------ writing


class StructWorld(MarshalWorld):
    """Writing structured data with known fields."""

    def __init__(self, start, names):
        MarshalWorld.__init__(self, start)
        self.names = names

    def getattr(self, it, st, base, name, n):
        if name == "names" and base.tag == "attr" and base.args[1] == "dtype":
            return [(st, C(self.names))]
        if name == "dtype" and base.tag == "attr" and base.args[1] in ("T",):
            return [(st, T("attr", sym("data"), "dtype"))]
        return MarshalWorld.getattr(self, it, st, base, name, n)

    def decide(self, it, st, atom):
        g, a = atom.tag, atom.args
        if g == "cmp" and a[0] == "is" and NONE in a[1:]:
            x = a[1] if a[2] is NONE else a[2]
            if x.tag == "attr" and x.args[1] in ("fields", "names"):
                return False
        if g == "cmp" and a[0] == "is" and ext("h5py.Reference") in a[1:]:
            return False
        if g == "truth" and a[0].tag == "call" and a[0].args[0] is ext("numpy.iscomplexobj"):
            return False
        if g == "isinst" and a[0] is sym("data") and a[1].tag == "ext":
            return a[1].args[0] == "numpy.ndarray"
        if g == "cmp" and a[0] == "eq" and any(is_c(x) for x in a[1:]):
            x = a[1] if is_c(a[2]) else a[2]
            v = a[2] if is_c(a[2]) else a[1]
            if x.tag == "attr" and x.args[1] == "name" and x.args[0].tag == "attr" and x.args[0].args[1] == "dtype":
                return False
        return MarshalWorld.decide(self, it, st, atom)


# (references group, members of /g beforehand, names written)
WRITE_CASES = [
    ("/#refs#", ["/g/x", "/g/old", "/g/sub/", "/g/sub/q"], ("x", "new")),
    ("/#refs#", ["/g/x", "/g/new"], ("x", "new")),
    ("/#refs#", ["/g/"], ("x", "new")),
    ("/#refs#", ["/g/#refs#", "/g/x"], ("x", "new")),
    ("/g/r", ["/g/r/", "/g/old", "/g/x"], ("x", "new")),
    ("/g/h/r", ["/g/h/r/", "/g/h/z", "/g/r", "/g/old"], ("x", "new")),
    ("/g/r", ["/g/ra", "/g/r/", "/g/r/a"], ("x", "new")),
    ("/h/r", ["/g/r", "/g/h/", "/h/r/"], ("x", "new")),
    ("/g/refs", ["/g/refs/", "/g/ref", "/g/re/"], ("x", "new")),
    ("/#refs#", ["/g/x", "/g/y/"], ("x",)),
    ("/#refs#", ["/g/x", "/g/y/"], ()),
    ("/g/r", ["/g/r/", "/g/x", "/g/y/"], ()),
    # Names that are escaped, with other members named as they're unescaped.
    ("/#refs#", ["/g/\\x41", "/g/\\\\x41", "/g/A", "/g/x"], ("\\x41", "new")),
    ("/#refs#", ["/g/a/", "/g/a/b", "/g/a\\x2fb", "/g/b"], ("a/b", "b")),
    ("/#refs#", ["/g/\\x2e\\x2e", "/g/a\\x00", "/g/a", "/g/.."[:3] + "\\x2e"], ("..", "a\0")),
    ("/g/a", ["/g/a/", "/g/a/b", "/g/a\\x2fb", "/g/b"], ("a/b", "b")),
]

ESCAPED = {"\\x41": "\\\\x41", "a/b": "a\\x2fb", "..": "\\x2e\\x2e", "a\0": "a\\x00"}


MORE_OPTIONS = ({}, {"store_python_metadata": False}, {"structs_as_dicts": True, "make_atleast_2d": True, "oned_as": "column", "reverse_dimension_order": True})


def check_c09(ctx):
    ctx.rule("C09.deleted", "exactly the members that aren't written again are deleted, if asked for, and never the references group or a group containing it")
    ctx.rule("C09.replaced", "what isn't a group is replaced by one, what is is kept")
    ctx.rule("C09.guard", "no data is written over the references group or a group containing it, wherever it's written from")
    for refs, content, names in WRITE_CASES:
        for unused in (False, True):
            for kind in ("dict", "keys", "struct"):
                for at in ("/", "/g"):
                    for more in MORE_OPTIONS:
                        write_group(ctx, refs, content, names, unused, kind, at, **more)
    for kind in ("dict", "keys", "struct"):
        for unused in (False, True):
            replace_member(ctx, kind, unused)
    guard(ctx)
    ctx.need("writes_analysed", 60)
    ctx.need("guard_cases", 12)


def run_write(ctx, world, refs, names, unused, kind, grp, name, **more):
    cls = ARRAY_M if kind == "struct" else DICT_M
    st0, o, f, m = setup(ctx, world, cls, matlab_compatible=False, group_for_references=refs,
                         delete_unused_variables=unused, structured_numpy_ndarray_as_struct=True, **more)

    def build(it):
        st = st0.fork()
        if kind == "struct":
            d = sym("data")
        else:
            keys = [C(n) for n in names]
            if kind == "keys":
                keys.append(C(5))
            d = it.alloc(st, Obj("dict", data={k: (sym("value%d" % i), True) for i, k in enumerate(keys)}))
        return st, [m, f, node(grp), C(name), d, NONE], []

    q = Interp(ctx.prog).find_member(cls, "write")[1].qual
    make = (lambda: StructWorld(world, names)) if kind == "struct" else (lambda: MarshalWorld(world))
    it, prop, rets, raises = ctx.run(fn(q), make, build)
    return q, it, rets, raises


def write_group(ctx, refs, content, names, unused, kind, at, **more):
    """Writes names to the group /g, from its parent or as the root of one."""
    if kind == "struct" and not names:
        return
    if at == "/g":
        # The same one level up: the group written to is the root.
        content = [c[2:] for c in content if c.startswith("/g/") and len(c) > 3]
        if not refs.startswith("/g/"):
            if refs != "/#refs#":
                return
        else:
            refs = refs[2:]
        grp, name, g = "/", ".", "/"
    else:
        grp, name, g = "/", "g", "/g"
    world = tree(*content)
    w = {ESCAPED.get(x, x) for x in names} if kind != "keys" else {"keys", "values"}
    d = dict(world)
    pre = g.rstrip("/") + "/"
    have = {p[len(pre):].split("/")[0] for p in d if p.startswith(pre) and p != g}
    keep = {n for n in have if (refs + "/").startswith(pre + n + "/")}
    expect = sorted(pre + n for n in have - w - keep) if unused or kind == "keys" else []
    q, it, rets, raises = run_write(ctx, world, refs, names, unused, kind, grp, name, **more)
    ctx.count("writes_analysed")
    if not rets:
        ctx.note_undecided("%s never returns for %s" % (q, content))
    for st, v in rets:
        evs = st.p.get("ev", ())
        if any(e[0].endswith("?") for e in evs):
            ctx.note_undecided("%s: %s" % (q, [e[0] for e in evs if e[0].endswith("?")]))
            continue
        if w and not any(e[0] == "write" for e in evs):
            continue
        ctx.count("outcomes_checked")
        got = sorted(e[1] for e in evs if e[0] == "del")
        if got != expect:
            ctx.violation("C09.deleted", "%s: %s" % (q, "keys and values" if kind == "keys" else "by name"),
                          "%s writing the members %s to a group with %s deletes %s rather than %s (delete_unused_variables=%s, group_for_references=%r%s)"
                          % (q, sorted(w), sorted(have), got, expect, unused, refs, "".join(", %s=%r" % x for x in sorted(more.items()))), "", st.history())
        wrote = [e[1] for e in evs if e[0] == "write"]
        if sorted(wrote) != sorted(pre + n for n in w):
            ctx.violation("C09.deleted", "%s: written" % q, "%s writes %s rather than %s" % (q, sorted(wrote), sorted(pre + n for n in w)), "", st.history())
        alive = dict(st.p.get("w", world))
        for x in wrote:
            if x not in alive:
                ctx.violation("C09.deleted", "%s: deleted after writing" % q, "%s deletes %s after writing it" % (q, x), "", st.history())


def replace_member(ctx, kind, unused):
    for content, dels in ((["/g", "/other"], ["/g"]), (["/other"], [])):
        world = tree(*content)
        q, it, rets, raises = run_write(ctx, world, "/#refs#", ("x", "new"), unused, kind, "/", "g")
        ctx.count("writes_analysed")
        for st, v in rets:
            evs = st.p.get("ev", ())
            if not any(e[0] == "write" for e in evs) or any(e[0].endswith("?") for e in evs):
                continue
            got = [e[1] for e in evs if e[0] == "del"]
            if got != dels or dict(st.p["w"]).get("/g") != "group":
                ctx.violation("C09.replaced", q, "%s over %s deletes %s" % (q, content, got), "", st.history())


class GuardWorld(MarshalWorld):
    def write_data(self, it, st, args, kw, n):
        return None

    def call(self, it, st, f, args, kw, n, fr):
        if f.tag == "bm" and f.args[1].tag == "fn":
            if f.args[1].args[0] == MC + ".get_marshaller_for_type":
                return [(st, T("tup", T("m"), TRUE))]
        if f.tag == "attr" and f.args[0].tag == "m":
            self.ev(st, "marshal", f.args[1])
            return [(st, T("sym", "written"))]
        return MarshalWorld.call(self, it, st, f, args, kw, n, fr)


GUARD = [
    ("/#refs#", "/", "#refs#", True), ("/#refs#", "/", "a", False), ("/#refs#", "/", "#refs", False),
    ("/#refs#", "/", "#refs#2", False), ("/#refs#", "/#refs#", "b", False), ("/#refs#", "/g", "#refs#", False),
    ("/#refs#", "/", ".", False), ("/#refs#", "/#refs#", "#refs#", False),
    ("/a/b", "/a", "b", True), ("/a/b", "/", "a", True), ("/a/b", "/a", "bc", False), ("/a/b", "/a/b", "c", False),
    ("/a/b", "/a", ".", True), ("/a/b", "/a", "./b", True), ("/a/b", "/", "b", False), ("/a/b", "/c", "a", False), ("/a/b", "/a", "c", False), ("/a/b", "/", "ab", False),
    ("/a/b/c", "/a", "b", True), ("/a/b/c", "/", "a", True), ("/a/b/c", "/a/b", "c", True), ("/a/b/c", "/a/b", "d", False),
]


def guard(ctx):
    q = LLF + ".write_data"
    ctx.prog.func(q)
    for refs, grp, name, bad in GUARD:
        world = tree(refs + "/", grp.rstrip("/") + "/")
        st0, o = options_objects(ctx, matlab_compatible=False, group_for_references=refs)[0]
        st0, f = llf_fields(ctx, world, st0, o)

        def build(it):
            return st0.fork(), [f, node(grp), C(name), sym("data"), NONE], []

        it, prop, rets, raises = ctx.run(fn(q), lambda: GuardWorld(world), build)
        ctx.count("guard_cases")
        done = [st for st, v in rets] + [st for st, e in raises if touched(st)]
        refused = [(st, e) for st, e in raises if e.explicit and not touched(st) and e.name and e.name != "NotImplementedError"]
        if bad and done and not refused:
            ctx.violation("C09.guard", q + ": not refused", "%s to %s in %s isn't refused with group_for_references=%r" % (q, name, grp, refs), "", done[0].history())
        elif not bad and refused and not done:
            ctx.violation("C09.guard", q + ": refused", "%s to %s in %s is refused with group_for_references=%r" % (q, name, grp, refs), refused[0][1].site, refused[0][0].history())
        elif done and refused:
            ctx.note_undecided("guard %s" % ((refs, grp, name),))
