"""Checks on which marshaller reads an object (C30)."""

from .effect_rules import *
from .refs_rules import run_file, file_in

DRV30 = "__rules_readers"
SRC30 = """
import numpy as np
import hdf5storage
from hdf5storage import MarshallerCollection, Options
from hdf5storage.Marshallers import TypeMarshaller
from hdf5storage.utilities import LowLevelFile

class Own:
    pass

class Reader(TypeMarshaller):
    def read(self, f, dsetgrp, attributes):
        return ("read", self.label, dsetgrp.name)

    def read_approximate(self, f, dsetgrp, attributes):
        return ("approximate", self.label, dsetgrp.name)

class OfString(Reader):
    def __init__(self):
        TypeMarshaller.__init__(self)
        self.label = "string"
        self.types = (Own,)
        self.python_type_strings = ("own", "shared")
        self.matlab_classes = ()
        self.update_type_lookups()

class OfClass(Reader):
    def __init__(self):
        TypeMarshaller.__init__(self)
        self.label = "class"
        self.types = ()
        self.python_type_strings = ()
        self.matlab_classes = ("own", "shared", "int8 class")
        self.update_type_lookups()

class OfType(Reader):
    def __init__(self):
        TypeMarshaller.__init__(self)
        self.label = "dtype"
        self.types = (np.int16,)
        self.python_type_strings = ("int16s",)
        self.matlab_classes = ("int16",)
        self.update_type_lookups()

class OfStruct(Reader):
    def __init__(self):
        TypeMarshaller.__init__(self)
        self.label = "struct"
        self.types = ()
        self.python_type_strings = ()
        self.matlab_classes = ("struct",)
        self.update_type_lookups()

class OfMissing(Reader):
    def __init__(self):
        TypeMarshaller.__init__(self)
        self.label = "missing"
        self.required_parent_modules = ("nosuchmodule",)
        self.required_modules = ("nosuchmodule.part",)
        self.types = (np.int32,)
        self.python_type_strings = ("needs",)
        self.matlab_classes = ("needs class",)
        self.update_type_lookups()

def make():
    return MarshallerCollection(priority=("user", "plugin", "builtin"), marshallers=[OfString(), OfClass(), OfType(), OfStruct(), OfMissing()])

def lowlevel(mc, f, ml):
    return LowLevelFile(f, Options(marshaller_collection=mc, matlab_compatible=ml))

def read(ll, grp, name):
    return ll.read_data(grp, name)

def read_it(ll, obj):
    return ll.read_data(None, None, obj)
"""

INT8 = lambda d: (d, (2,), (C(1), C(2)))
OBJECTS = {
    "float64": INT8("float64"), "int16": INT8("int16"), "int32": INT8("int32"), "scalar int16": ("int16", (), (C(3),)), "big endian int16": (">int16", (2,), (C(1), C(2))),
    "empty int16": ("int16", (0,), ()), "uint8": INT8("uint8"), "group": None, "S2": ("S2", (2,), (C(b"ab"), C(b"c"))),
}
# Values of attributes and the string they are, None when they aren't one.
VALUES = {
    "own": (("S3", (), (C(b"own"),)), "own"), "shared": (("S6", (), (C(b"shared"),)), "shared"), "own as str": (("vlenstr", (), (C("own"),)), "own"),
    "shared as str": (("vlenstr", (), (C("shared"),)), "shared"),
    "needs": (("S5", (), (C(b"needs"),)), "needs"), "needs class": (("S11", (), (C(b"needs class"),)), "needs class"), "int16": (("S5", (), (C(b"int16"),)), "int16"),
    "int16s": (("S6", (), (C(b"int16s"),)), "int16s"), "unknown": (("S6", (), (C(b"no.one"),)), "no.one"), "unknown str": (("vlenstr", (), (C("no.one"),)), "no.one"),
    "own with a space": (("S4", (), (C(b"own "),)), "own "), "upper case": (("S3", (), (C(b"Own"),)), "Own"),
    "struct": (("S6", (), (C(b"struct"),)), "struct"),
    "a number": (("int64", (), (C(3),)), None), "numbers": (("uint8", (3,), (C(111), C(119), C(110))), None), "a float": (("float64", (), (C(1.5),)), None),
    "an array of own": (("S3", (1,), (C(b"own"),)), None), "strs": (("vlenstr", (2,), (C("own"), C("shared"))), None),
    "no numbers": (("float64", (0,), ()), None), "bytes that are no text": (("S2", (), (C(b"\xff\xfe"),)), None),
}
BY_STRING = {"own": "string", "shared": "string", "int16s": "dtype", "needs": "missing"}
BY_CLASS = {"own": "class", "shared": "class", "int8 class": "class", "int16": "dtype", "struct": "struct", "needs class": "missing"}


def reader_of(obj, ts, mc):
    """Label of the marshaller that reads an object, None for the default."""
    s = VALUES[ts][1] if ts else None
    c = VALUES[mc][1] if mc else None
    if s is not None:
        return BY_STRING.get(s)
    if c is not None:
        return BY_CLASS.get(c)
    if OBJECTS[obj] is None:
        return "struct"
    return {"int16": "dtype", "int32": "missing"}.get(nat(OBJECTS[obj][0]))


def label_of(it, st, v):
    """(how, label, name) of a reader of the driver, False for anything else known, None if unknown."""
    e = it.exact_items(st, v) if v.tag in ("tup", "obj") else None
    if v.tag == "c":
        e = [C(x) for x in cval(v)] if isinstance(cval(v), tuple) else []
    elif e is not None:
        e = [x[0] if isinstance(x, tuple) else x for x in e]
    if e is not None and len(e) == 3 and all(map(is_c, e)):
        return tuple(cval(x) for x in e)
    if isarr(v) or e is not None or is_c(v) or v.tag == "obj" or it.prop.pytype(it, st, v) is not None:
        return False
    return None


def check_c30(ctx):
    ctx.rule("chosen", "an object is read by the marshaller of its type string, else of its MATLAB class, else of its dtype or of structs, else as a plain array; attributes that aren't strings count as missing")
    ctx.rule("approximately", "it reads exactly when the modules it needs are there and approximately otherwise")
    ctx.rule("missing", "reading what isn't there raises KeyError")
    ctx.rule("plain", "a dataset without metadata, or with an unknown type, is read as the array it holds")
    ctx.prog.add_driver(DRV30, SRC30)

    class World(CaseWorld):
        max_steps = 60000
        mods = (("nosuchmodule", "gone"), ("nosuchmodule.part", "gone"))

    def start(st):
        st.p["mods"] = World.mods
        return st
    run = lambda what, f, st, args: ctx.attempt(what, fn("%s.%s" % (DRV30, f)), World, lambda it: (st, list(args), []))
    r = run("the collection", "make", start(State()), [])
    if r is None or len(r[2]) != 1 or r[3]:
        raise AnalysisBroken("the marshaller collection can't be followed")
    st0, mc = r[2][0]
    lows = []
    for ml in (False, True):
        r = run("LowLevelFile", "lowlevel", st0.fork(), [mc, node("/"), C(ml)])
        if r is None or len(r[2]) != 1 or r[3]:
            raise AnalysisBroken("LowLevelFile can't be made")
        lows.append((ml,) + r[2][0])
    bad = 0

    def violation(rule, what, text, site=""):
        nonlocal bad
        bad += 1
        if bad < STOP_AFTER:
            ctx.violation(rule, what, text, site)
    some = (None, "own", "shared", "unknown", "a number", "strs", "bytes that are no text", "struct", "needs", "int16")
    jobs = []
    for obj in OBJECTS:
        for a in (None,) + tuple(VALUES):
            for b in some if a not in (None, "own", "unknown", "a number") else (None,) + tuple(VALUES):
                jobs.append((obj, a, b))
    for ml, st1, ll in lows:
        for obj, ts, cl in jobs if not ml else jobs[::7]:
            what = "%s with type %s and class %s%s" % (obj, ts or "missing", cl or "missing", ", MATLAB compatible" if ml else "")
            attrs = {}
            if ts:
                attrs["Python.Type"] = VALUES[ts][0]
            if cl:
                attrs["MATLAB_class"] = VALUES[cl][0]
            st = start(st1.fork())
            having(("/x", OBJECTS[obj], attrs))(None, st, None, None)
            st.p["ev"] = ()
            base = set(st.facts)
            for how in ("read", "read_it") if not ml and len(attrs) < 2 else ("read",):
                ctx.count("objects read")
                h = node("/x", "dataset" if OBJECTS[obj] is not None else "group")
                r = run(what, how, st.fork(), [ll, node("/"), C("x")] if how == "read" else [ll, h])
                if r is None:
                    continue
                it, prop, rets, raises = r
                want = reader_of(obj, ts, cl)
                for s, e in raises:
                    if want is None and (ts and VALUES[ts][1] is not None or cl and VALUES[cl][1] is not None):
                        ctx.note_undecided("%s raises %s" % (what, e.name))
                    elif reachable(set(s.facts) - base):
                        violation("chosen", what, "%s: reading it raises %s" % (what, e.name), e.site)
                    else:
                        ctx.note_undecided("%s raises %s" % (what, e.name))
                for s, v in rets:
                    got = label_of(it, s, v)
                    if got is None:
                        ctx.note_undecided("%s is read as %s" % (what, show(v)[:100]))
                        continue
                    if not reachable(set(s.facts) - base):
                        ctx.note_undecided("%s: a path isn't known to be taken" % what)
                        continue
                    ctx.count("choices compared")
                    named = lambda x: "the marshaller of the %s" % x if x else "the default"
                    have = got[1] if got else None
                    if have != want:
                        violation("chosen", what, "%s: it is read by %s instead of %s" % (what, named(have), named(want)))
                    elif got and got[2] != "/x":
                        violation("chosen", what, "%s: %s is read instead" % (what, got[2]))
                    elif got and got[0] != ("approximate" if want == "missing" else "read"):
                        violation("approximately", what, "%s: it is read %s" % (what, "exactly, without the modules needed" if want == "missing" else "approximately"))
                    elif not got and OBJECTS[obj] is not None and not (cl and VALUES[cl][1] is not None) and (
                            not ts or VALUES[ts][1] in (None, "no.one", "own ", "Own")):
                        d, sh, el = OBJECTS[obj]
                        if isarr(v) and v.args[1] != "object":
                            ev = it.prop.elems(s, v)
                            if v.args[2] != sh or nat(v.args[1]) != nat(d) or all(map(is_c, ev)) and [cval(x) for x in ev] != [cval(x) for x in el]:
                                violation("plain", what, "%s: it is read as %s" % (what, show(v)[:100]))
    missing(ctx, run, lows, violation, start)
    ctx.need("choices compared", 500)


def missing(ctx, run, lows, violation, start):
    ml, st1, ll = lows[0]
    for grp, name in (("/", "x"), ("/g", "x"), ("/g", "nope")):
        st = start(st1.fork())
        having(("/g/y", ("int64", (), (C(1),)), {}))(None, st, None, None)
        ctx.count("missing objects")
        r = run("%s/%s" % (grp, name), "read", st, [ll, node(grp, "group"), C(name)])
        if r is None:
            continue
        for s, v in r[2]:
            violation("missing", "read_data", "reading %s of %s, which isn't there, gives %s" % (name, grp, show(v)))
        for s, e in r[3]:
            if (e.name or "").split(".")[-1] != "KeyError":
                violation("missing", "read_data", "reading %s of %s, which isn't there, raises %s" % (name, grp, e.name), e.site)
    world = tree("/a/", "/a/b", "/c", "/#refs#/")
    base = file_in(ctx, world, group_for_references="/#refs#")
    for op in ("read", "reads", "__getitem__", "__delitem__"):
        for p in ("/x", "x", "/a/x", "/x/y/z", "/c/x"):
            if p == "/c/x" and op == "__delitem__":
                continue
            ctx.count("missing objects")
            q, it, prop, rets, raises = run_file(ctx, base, world, op, [T("tup", C(p))] if op == "reads" else [C(p)])
            # A read of the low level file stands for its own raising.
            for s, v in rets:
                if any(e[0] == "read_data" for e in s.p.get("ev", ())) and p in ("/x", "x", "/a/x"):
                    continue
                violation("missing", "%s(%s)" % (q, p), "%s(%r) returns though nothing is there" % (q, p))
            for s, e in raises:
                if e.name is not None and e.name.split(".")[-1] != "KeyError":
                    violation("missing", "%s(%s)" % (q, p), "%s(%r) raises %s though nothing is there" % (q, p, e.name), e.site)
