"""Checks on what writing and reading change besides the data asked for (C17, C18, C19, C20)."""

import ast

from .refs_rules import file_in, iterated, run_file
from .meta_rules import *

NOT_CHANGING = {"get", "get?", "load", "load?", "import", "entry_points", "plugin", "buffer", "reshaped", "read_data", "write_data"}
NOT_MATLAB = "TypeNotMatlabCompatibleError"


def changes(st):
    """What was changed in the file."""
    return [e for e in st.p.get("ev", ()) if e[0] not in NOT_CHANGING]


def show_change(e):
    return "%s of %s" % (e[0], e[1]) if len(e) > 1 and isinstance(e[1], str) else e[0]


def content(st):
    w = dict(st.p.get("w", CaseWorld.start))
    return w, dict(st.p.get("ds", ())), dict(st.p.get("at", ()))


# --------------------------------------------------- data MATLAB can't handle

def unsupported():
    out = {}
    for d in ("float16", "float128", "complex256", "void3"):
        for s in ((), (3,), (0,), (2, 2)):
            out["%s %s" % (d, s)] = array(d, s)
        out["matrix %s" % d] = array(d, (2, 2), "matrix")
        if d in ("float16", "void3"):
            out["numpy.%s" % d] = array(d, (), "scalar")
    return out


BEFORE = {
    "nothing": None,
    "an array": having(("/x", ("int64", (3,), (C(1), C(2), C(3))), {"Python.Type": ("S13", (), (C(b"numpy.ndarray"),))})),
    "a group": having(("/x", None, {"Python.Type": ("S4", (), (C(b"dict"),))}), ("/x/y", ("int64", (), (C(1),)), {}), ("/x/a", ("int64", (), (C(1),)), {})),
}
ACTIONS = ("error", "discard", "ignore")


def check_c17(ctx):
    ctx.rule("judged", "MATLAB incompatible data raises, is left out or is written as the option says, and when it isn't written nothing in the file is changed")
    ctx.rule("supported", "data MATLAB can handle is written whatever the option is, and so is all data when not MATLAB compatible")
    lab = Lab(ctx)
    jobs = [(b, n, a, m) for b in BEFORE for n in unsupported() for a in ACTIONS for m in (True, False)]
    specs = unsupported()
    bad = [0]

    def violation(rule, what, text, site=""):
        bad[0] += 1
        if bad[0] <= STOP_AFTER:
            ctx.violation(rule, what, text, site)

    def start(b, kw):
        st, o, ll = lab.options(**kw)
        if BEFORE[b] is not None:
            st, ll = BEFORE[b](lab, st, ll, o)
        return st, o, ll

    def run(what, b, spec, kw):
        st, o, ll = start(b, kw)
        before = content(st)

        def args(it, s):
            d = mk(it.prop, it, s, spec)
            s.p["ev"] = ()
            return [ll, node("/"), C("x"), d]
        return before, set(st.facts), lab.run(what, "write", st, args, CaseWorld)

    for b, n, a, m in jobs:
        kw = dict(matlab_compatible=m, action_for_matlab_incompatible=a)
        what = "%s written over %s, action %s, %sMATLAB compatible" % (n, b, a, "" if m else "not ")
        ctx.count("writes of incompatible data")
        before, base, r = run(what, b, specs[n], kw)
        if r is None:
            continue
        it, prop, rets, raises = r
        for st, v in rets:
            sure = reachable(set(st.facts) - base)
            written = content(st) != before or bool(changes(st))
            if m and a == "error" and sure:
                violation("judged", what, "%s: no error is raised" % what)
            elif m and a == "discard" and written and sure:
                violation("judged", what, "%s: %s though it is to be left out" % (what, show_change((changes(st) + [("change",)])[0])))
            elif (not m or a == "ignore") and sure:
                d = content(st)[1].get("/x")
                if d is None or "/x" not in content(st)[0]:
                    violation("judged", what, "%s: it isn't written" % what)
        for st, e in raises:
            sure = reachable(set(st.facts) - base)
            if not sure:
                ctx.note_undecided("%s raises %s" % (what, e.name))
            elif m and a == "error":
                if (e.name or "").split(".")[-1] != NOT_MATLAB:
                    violation("judged", what, "%s raises %s" % (what, e.name), e.site)
                elif changes(st):
                    violation("judged", what, "%s: %s before the error is raised" % (what, show_change(changes(st)[0])), e.site)
            else:
                violation("judged", what, "%s raises %s" % (what, e.name), e.site)
    members(ctx, lab, run, violation)
    # What can be stored is never left out.
    for a in ACTIONS[1:]:
        o = [("MATLAB compatible, %s" % a, opts(ML, action_for_matlab_incompatible=a)), ("not MATLAB compatible, %s" % a, opts(PY, action_for_matlab_incompatible=a))]
        cases = kinds() if ctx.tier != "thorough" else all_cases()
        trips(ctx, "supported", cases, o, not_stored, lab=lab)
    ctx.need("writes of incompatible data", 200)
    ctx.need("round trips of data kinds", 100)


def members(ctx, lab, run, violation):
    """Incompatible data in data."""
    f16 = array("float16", (3,))
    holders = {
        "dict": (("dict", [(C("a"), f16), (C("b"), I("n"))]), ["/x/a"], ["/x/b"], "refs"),
        "dict, last": (("dict", [(C("b"), I("n")), (C("a"), f16)]), ["/x/a"], ["/x/b"], "refs"),
        "list": (("list", [f16, I("n")]), [], ["/x"], (0,)),
        "list, last": (("list", [I("n"), f16]), [], ["/x"], (1,)),
        "tuple of all": (("tuple", [f16, f16]), [], ["/x"], (0, 1)),
        "structured": (array(("struct", (("a", "float16"), ("b", "int64"))), (1,)), ["/x/a"], ["/x/b"], "refs"),
    }
    for n, (spec, out, kept, empty) in holders.items():
        for b in BEFORE if n.startswith("dict") else ("nothing",):
            for a in ACTIONS:
                kw = dict(matlab_compatible=True, action_for_matlab_incompatible=a)
                what = "float16 in %s written over %s, action %s" % (n, b, a)
                ctx.count("writes of incompatible data")
                before, base, r = run(what, b, spec, kw)
                if r is None:
                    continue
                it, prop, rets, raises = r
                for st, e in raises:
                    if not reachable(set(st.facts) - base):
                        ctx.note_undecided("%s raises %s" % (what, e.name))
                    elif a != "error" or (e.name or "").split(".")[-1] != NOT_MATLAB:
                        violation("judged", what, "%s raises %s" % (what, e.name), e.site)
                    else:
                        for x in changes(st):
                            if len(x) > 1 and isinstance(x[1], str) and any(x[1] == p or x[1].startswith(p + "/") for p in out):
                                violation("judged", what, "%s: %s before the error is raised" % (what, show_change(x)), e.site)
                for st, v in rets:
                    if not reachable(set(st.facts) - base):
                        continue
                    w, ds, at = content(st)
                    if a == "error":
                        violation("judged", what, "%s: no error is raised" % what)
                        continue
                    for p in kept + (out if a == "ignore" else []):
                        if p not in w:
                            violation("judged", what, "%s: %s isn't written" % (what, p))
                    if a == "discard":
                        for x in changes(st):
                            if len(x) > 1 and x[0] not in ("del", "create_group") and isinstance(x[1], str) and any(x[1] == p or x[1].startswith(p + "/") for p in out):
                                violation("judged", what, "%s: %s though it is to be left out" % (what, show_change(x)))
                        if b == "nothing":
                            for p in out:
                                if p in w:
                                    violation("judged", what, "%s: %s is written though it is to be left out" % (what, p))
                    if empty != "refs" and ds.get("/x") is not None and ds["/x"][0] == "ref":
                        refs = ds["/x"][2]
                        for i, x in enumerate(refs):
                            if x.tag != "h5ref":
                                continue
                            there = x.args[0] == "/#refs#/a"
                            if there != (a == "discard" and i in empty):
                                violation("judged", what, "%s: the element %d is %s" % (what, i, "the canonical empty" if there else "written though it is to be left out"))


# ------------------------------------------------------------------ filters

def filter_options(full):
    """(name, options) of the settings about filters."""
    algorithms = [("gzip", 7), ("gzip", 0), ("lzf", 7), ("szip", 7)]
    for base, bn in ((PY, "not MATLAB compatible"), (ML, "MATLAB compatible")):
        for algorithm, level in algorithms if full or base is PY else algorithms[:1]:
            for shuffle, cf, uf in ((False, False, False), (True, False, False), (False, True, False), (False, False, True), (True, True, True)):
                yield "%s, %s %d, shuffle %s, checksums %s and %s" % (bn, algorithm, level, shuffle, cf, uf), opts(
                    base, compress=True, compress_size_threshold=16, compression_algorithm=algorithm, gzip_compression_level=level, shuffle_filter=shuffle,
                    compressed_fletcher32_filter=cf, uncompressed_fletcher32_filter=uf)
        for uf in (False, True):
            yield "%s, no compression, checksums %s" % (bn, uf), opts(
                base, compress=False, compress_size_threshold=0, compression_algorithm="gzip", gzip_compression_level=7, shuffle_filter=True,
                compressed_fletcher32_filter=True, uncompressed_fletcher32_filter=uf)
        yield "%s, always" % bn, opts(base, compress=True, compress_size_threshold=0, compression_algorithm="gzip", gzip_compression_level=3,
                                      shuffle_filter=True, compressed_fletcher32_filter=False, uncompressed_fletcher32_filter=True)


def filters_wanted(kw, d, s):
    """Filters of a dataset of the dtype and shape, None when it depends."""
    n = prod(s) * itemsize(d)
    f = {"compression": NONE, "compression_opts": NONE, "fletcher32": FALSE, "shuffle": FALSE}
    if s != () and kw["compress"] and n >= kw["compress_size_threshold"]:
        f["compression"] = C(kw["compression_algorithm"])
        f["fletcher32"], f["shuffle"] = C(kw["compressed_fletcher32_filter"]), C(kw["shuffle_filter"])
        if kw["compression_algorithm"] == "gzip":
            f["compression_opts"] = C(kw["gzip_compression_level"])
        elif kw["compression_algorithm"] == "szip":
            f["compression_opts"] = None
    elif s != ():
        f["fletcher32"] = C(kw["uncompressed_fletcher32_filter"])
    return f


def filters_check(kw, what):
    def check(it, st, at, held):
        for p, v in st.p.get("ds", ()):
            if p == kw.get("group_for_references", "/#refs#") + "/a" or v[0] == "unknown" or v[1] is None:
                continue
            if p.startswith("/before"):
                continue
            want, have = filters_wanted(kw, v[0], v[1]), dict(v[3])
            for f, x in want.items():
                if x is not None and have.get(f) != x:
                    raise Diff(is_c(have.get(f, NONE)), "stored", "%s, %s of shape %s and %d bytes has %s %s instead of %s" % (
                        what, p, v[1], prod(v[1]) * itemsize(v[0]), f, show(have.get(f, NONE)), show(x)))
            plain = all(x in (NONE, FALSE) for x in want.values())
            if plain and have.get("chunks", NONE) is not NONE:
                raise Diff(True, "stored", "%s, %s isn't contiguous" % (what, p))
    return check


def replaced_check(kw):
    """Filters, and the dtype of a dataset made anew."""
    filters = filters_check(kw, "data")

    def check(it, st, at, held):
        filters(it, st, at, held)
        for p, v in st.p.get("ds", ()):
            if p == "/x" and v[0] != "unknown" and v[0] != "float64":
                raise Diff(True, "stored", "the dataset of float64 data is one of %s" % (v[0],))
    return check


def over_states():
    """Datasets to be replaced or overwritten: name -> step."""
    out = {}
    sets = {"gzip 7": ("gzip", 7), "gzip 3": ("gzip", 3), "lzf": ("lzf", None), "none": (None, None)}
    for d, s in (("float64", (3,)), ("float64", (1, 3)), ("int64", (3,)), ("float32", (3,)), (">float64", (3,)), ("float64", (2,))):
        for n, (c, o) in sets.items():
            for sh, fl in ((False, False), (True, False), (False, True), (True, True)):
                fs = dict(NOFILTER, compression=C(c), compression_opts=C(o), shuffle=C(sh), fletcher32=C(fl))
                if c or sh or fl:
                    fs["chunks"] = TRUE
                out["%s %s, %s, shuffle %s, checksums %s" % (d, s, n, sh, fl)] = (d, s, tuple(C(90 + i) for i in range(prod(s))), tuple(sorted(fs.items())))
    return out


def having_filtered(v):
    plain = having(("/x", v[:3], {}))

    def step(lab, st, low, o):
        st, low = plain(lab, st, low, o)
        ds = dict(st.p["ds"])
        ds["/x"] = v
        st.p["ds"] = tuple(sorted(ds.items(), key=lambda kv: kv[0]))
        return st, low
    return step


def check_c18(ctx):
    ctx.rule("filters", "each dataset has the filters the options ask for by its shape and size, whatever dataset was there before, and holds the data")
    lab = Lab(ctx)
    ks = kinds()
    names = ("int", "str", "bytes", "empty str", "array float64 (3,)", "array float64 (0,)", "array float64 (2, 3)", "array complex128 (3,)", "array bool (3,)", "list",
             "dict of values", "structured plain (3,)", "structured named (3,)")
    cases = {n: ks[n] for n in names if n in ks}
    a = array_cases()
    for n in ("array int8 (3,)", "array uint8 (3,)", "array int8 (2, 3)", "array S3 (3,)", "array U2 (3,)", "array int16 (3,)"):
        if n in a:
            cases[n] = a[n]
    for n, d, s in (("exactly the threshold", "float64", (2,)), ("below the threshold", "int8", (15,)), ("at the threshold", "int8", (16,)), ("large", "float64", (2, 2))):
        cases[n] = array(d, s)
    o = list(filter_options(ctx.tier == "thorough"))
    trips(ctx, "filters", cases, o, lab=lab, check=lambda c, kw: filters_check(kw, "data"))
    over = {"array over " + n: [(having_filtered(v), None), ("x", array("float64", (3,)))] for n, v in over_states().items()}
    some = [x for x in o if x[0].startswith("not") or x[0].startswith("MATLAB compatible, always")]
    trips(ctx, "filters", over, some if ctx.tier == "thorough" else some[:3] + some[-4:], lab=lab, check=lambda c, kw: replaced_check(kw))
    ctx.need("round trips of data kinds", 500)


# ------------------------------------------------------ reading has no effects

def same_heap(a, b, x, y, seen=None):
    """Whether values of two states are the same as far as they can be changed."""
    seen = set() if seen is None else seen
    if x.tag != "obj" or y.tag != "obj":
        return x == y
    if (x, y) in seen:
        return True
    seen.add((x, y))
    p, q = a.heap.get(x.args[0]), b.heap.get(y.args[0])
    if p is None or q is None or p is q:
        return p is q
    if p.kind != q.kind or p.cls != q.cls:
        return False
    if isinstance(p.data, dict) and isinstance(q.data, dict):
        for k, v in p.data.items():
            w = q.data.get(k)
            if w is None:
                return False
            v1, w1 = (v[0], w[0]) if isinstance(v, tuple) else (v, w)
            if isinstance(v1, Term) and not same_heap(a, b, v1, w1, seen):
                return False
        # Objects may have more attributes than before, dicts may not.
        return p.kind != "dict" or len(p.data) == len(q.data)
    if isinstance(p.data, tuple) and isinstance(q.data, tuple):
        xs = [v[0] if isinstance(v, tuple) else v for v in p.data]
        ys = [v[0] if isinstance(v, tuple) else v for v in q.data]
        return len(xs) == len(ys) and all(not isinstance(v, Term) or same_heap(a, b, v, w, seen) for v, w in zip(xs, ys))
    return p.data == q.data


def marshallers(st, mc):
    """The marshaller objects of a collection."""
    out, todo, seen = [], [mc], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x.tag != "obj" or x in seen:
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        seen.add(x)
        o = st.heap.get(x.args[0])
        if o is None:
            continue
        if o.kind == "inst" and x is not mc:
            out.append(x)
            continue
        if isinstance(o.data, dict):
            todo.extend(v[0] if isinstance(v, tuple) else v for v in o.data.values())
        elif isinstance(o.data, tuple):
            todo.extend(v[0] if isinstance(v, tuple) else v for v in o.data)
    return out


def kept(a, b, o, mc, what):
    """Raises Diff when the options or a marshaller changed between states."""
    x, y = a.heap.get(o.args[0]), b.heap.get(o.args[0])
    for k, v in x.data.items():
        w = y.data.get(k)
        if v == mc or w is v:
            continue
        if w is None or not same_heap(a, b, v, w):
            raise Diff(w is None or is_c(w), "stored", "%s: %s of the options is changed" % (what, k))
    for m in marshallers(a, mc):
        if not same_heap(a, b, m, m):
            raise Diff(True, "stored", "%s: a marshaller is changed" % what)


STR = lambda s: ("S%d" % len(s), (), (C(s.encode()),))
FOREIGN_DATA = {
    "float64 (3,)": ("float64", (3,), tuple(C(i + 0.5) for i in range(3))), "float64 ()": ("float64", (), (C(2.5),)),
    "int64 (1, 1)": ("int64", (1, 1), (C(7),)), "uint64 (2,)": ("uint64", (2,), (C(0), C(3))), "uint64 (0,)": ("uint64", (0,), ()),
    "uint16 (2, 3)": ("uint16", (2, 3), tuple(C(97 + i) for i in range(6))), "uint8 (1, 2)": ("uint8", (1, 2), (C(1), C(0))),
    "S3 (2,)": ("S3", (2,), (C(b"abc"), C(b"de"))), "S3 ()": ("S3", (), (C(b"abc"),)), "str": ("vlenstr", (), (C("abc"),)),
    "references (2,)": ("ref", (2,), (T("h5ref", "/other/a"), T("h5ref", "/other/b"))),
    "no references": ("ref", (0,), ()),
    "structured (2,)": (("struct", (("a", "int64"), ("b", "float64"))), (2,), tuple(T("rec", ("a", "b"), C(i), C(i + 0.5)) for i in range(2))),
    "group": None, "group of two": None, "group of keys and values": None,
}
FOREIGN_ATTRS = {
    "no metadata": {}, "unknown type": {"Python.Type": STR("foo.Bar")}, "type of numbers": {"Python.Type": ("int64", (2,), (C(1), C(2)))},
    "unknown class": {"MATLAB_class": STR("foo")}, "class of numbers": {"MATLAB_class": ("float64", (), (C(1.5),))},
    "types": {"Python.Type": ("vlenstr", (2,), (C("int"), C("str")))},
}
for _t in ("numpy.ndarray", "int", "str", "bytes", "dict", "list", "collections.Counter", "slice", "datetime.date", "fractions.Fraction", "numpy.float64", "set"):
    FOREIGN_ATTRS["type " + _t] = {"Python.Type": STR(_t)}
for _t in ("double", "char", "cell", "struct", "logical", "canonical empty"):
    FOREIGN_ATTRS["class " + _t] = {"MATLAB_class": STR(_t)}
FOREIGN_ATTRS["empty double"] = {"MATLAB_class": STR("double"), "MATLAB_empty": ("uint8", (), (C(1),))}
FOREIGN_ATTRS["empty char"] = {"MATLAB_class": STR("char"), "MATLAB_empty": ("uint8", (), (C(1),))}
FOREIGN_ATTRS["shape of another size"] = {"Python.Type": STR("numpy.ndarray"), "Python.Shape": ("uint64", (2,), (C(5), C(7))), "Python.numpy.UnderlyingType": STR("float64"),
                                          "Python.numpy.Container": STR("ndarray")}
FOREIGN_ATTRS["unknown container"] = {"Python.Type": STR("numpy.ndarray"), "Python.Shape": ("uint64", (1,), (C(3),)), "Python.numpy.UnderlyingType": STR("foo"),
                                      "Python.numpy.Container": STR("foo")}
FOREIGN_ATTRS["emptiness of a string"] = {"Python.Type": STR("numpy.ndarray"), "Python.Empty": STR("yes"), "Python.Shape": STR("(3,)")}
FOREIGN_ATTRS["fields of numbers"] = {"Python.Type": STR("dict"), "Python.Fields": ("int64", (2,), (C(1), C(2))), "Python.dict.StoredAs": STR("individually"),
                                      "Python.dict.key_str_types": STR("tb")}
FOREIGN_ATTRS["other fields"] = {"Python.Type": STR("dict"), "Python.Fields": ("vlenstr", (2,), (C("a"), C("zz"))), "Python.dict.StoredAs": STR("individually"),
                                 "Python.dict.key_str_types": STR("t")}
FOREIGN_ATTRS["keys and values"] = {"Python.Type": STR("dict"), "Python.dict.StoredAs": STR("keys_values"),
                                    "Python.dict.keys_values_names": ("vlenstr", (2,), (C("keys"), C("values")))}


class ForeignWorld(CaseWorld):
    max_steps = 12000


def foreign(data, attrs):
    """A step putting an object that wasn't written by the package."""
    members = []
    if data != "group" and FOREIGN_DATA[data] is None:
        n = ("keys", "values") if "keys" in data else ("a", "b")
        members = [("/x/%s" % n[0], ("int64", (2,), (C(1), C(2))), {}), ("/x/%s" % n[1], ("S2", (2,), (C(b"ab"), C(b"c"))), {})]
    return having(("/x", FOREIGN_DATA[data], attrs if isinstance(attrs, dict) else FOREIGN_ATTRS[attrs]), ("/other/a", ("int64", (), (C(5),)), {}),
                  ("/other/b", ("uint64", (2,), (C(0), C(0))), {"MATLAB_class": STR("canonical empty"), "MATLAB_empty": ("uint8", (), (C(1),))}), *members)


def more_attrs(ctx):
    """Metadata with every name of a type the marshallers have or anything in the source is compared with."""
    ts, cs = set(), set()
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            for k in [n] if isinstance(n, ast.Compare) else n.value.elts if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Tuple, ast.List)) else ():
                for x in ast.walk(k):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and 1 < len(x.value) < 40 and "/" not in x.value and x.value.isascii():
                        (cs if x.value[0].islower() and "." not in x.value and x.value.isalpha() else ts).add(x.value)
                        ts.add(x.value)
    ts |= {"long", "unicode", "long int", "basestring"}
    out = {"type " + t: {"Python.Type": STR(t)} for t in ts}
    out.update({"class " + t: {"MATLAB_class": STR(t)} for t in cs})
    return {k: v for k, v in sorted(out.items()) if k not in FOREIGN_ATTRS}


def check_c19(ctx):
    ctx.rule("read only", "nothing in the file is created, changed or deleted by reading data of any kind, also when it has metadata that doesn't fit it")
    ctx.rule("options kept", "reading leaves the options and the marshallers as they were")
    ctx.rule("file read only", "reading, looking for names, counting and iterating through a writable File changes nothing in the file")
    lab = Lab(ctx)

    def check_read(kw):
        o = lab.options(**kw)[1]

        def check(it, a, b):
            x = changes(b)
            if x:
                raise Diff(True, "stored", "reading does a " + show_change(x[0]))
            kept(a, b, o, lab.mc, "reading")
        return check
    cases = all_cases() if ctx.tier == "thorough" else dict(kinds(), **dict_cases())
    trips(ctx, "read only", cases, BASIC + NOPY + (STRUCTS + REFS + KEYS if ctx.tier == "thorough" else STRUCTS[:1] + REFS[:1]), not_stored, lab=lab, check_read=lambda c, kw: check_read(kw),
          other=False)
    two = dict(kinds(), **{k: v for k, v in dict_cases().items() if "keys str" in k or "mixed" in k or "int" in k})
    for name, a, b in (("names of keys and values, read with others", KEYS[1][1], PY), ("read with options that aren't MATLAB compatible", ML, PY), ("read with MATLAB compatible options", PY, ML),
                       ("complex names, read with others", COMPLEX[0][1], opts(PY, complex_names=("a", "b"))), ("other references, read with the usual", REFS[0][1], ML)):
        trips(ctx, "read only", {k: [("x", v), (then(**b), None)] for k, v in two.items()}, [(name, a)], not_stored, lab=lab,
              check_read=lambda c, kw: check_read(kw), other=False)
    more = more_attrs(ctx)
    every = dict(FOREIGN_ATTRS, **more)
    jobs = [(d, a, n, kw) for n, kw in BASIC[:1] for d in ("int64 (1, 1)", "float64 ()", "str", "group") for a in more]
    jobs += [(d, a, n, kw) for n, kw in BASIC + [("structs as dicts", opts(PY, structs_as_dicts=True))] for d in FOREIGN_DATA for a in FOREIGN_ATTRS]

    def one(job):
        d, a, n, kw = job
        st, o, ll = lab.options(**kw)
        st, ll = foreign(d, every[a])(lab, st, ll, o)
        st.p["ev"] = ()
        before = st.fork()
        r = lab.run("reading %s with %s" % (d, a), "read", st, [ll, node("/"), C("x")], ForeignWorld)
        if r is None:
            return None
        for s in [x for x, _ in r[2] + r[3]]:
            try:
                check_read(kw)(r[0], before, s)
            except Diff as e:
                if e.sure and reachable(set(s.facts) - set(before.facts)):
                    return e.why
        return ""
    bad = 0
    for (d, a, n, kw), r in spread(ctx, jobs, one):
        ctx.count("foreign objects read")
        what = "%s with %s (%s)" % (d, a, n)
        if r:
            bad += 1
            if bad < STOP_AFTER:
                ctx.violation("read only", what, "%s: %s" % (what, r))
    file_reading(ctx)
    ctx.need("foreign objects read", 400)
    ctx.need("round trips of data kinds", 300)


FILE_READING = {"__len__": [], "__iter__": [], "__contains__": [C("/a/b")], "read": [C("/a/b")], "reads": [T("tup", C("/a/b"), C("/c"))], "__getitem__": [C("/a/b")]}


def file_reading(ctx):
    from .refs_rules import populated
    for refs in ("/#refs#", "/a/b/c"):
        for world in (populated(refs), tree("/a/", "/a/b", "/c")):
            base = file_in(ctx, world, group_for_references=refs)
            for op, args in FILE_READING.items():
                for more in ([], [C("/nothing")], [C("/no/such/thing")], [C("/c/below/it")])[:1 if not args else 4]:
                    q, it, prop, rets, raises = run_file(ctx, base, world, op, more[:1] or args if op != "reads" else [T("tup", *(more + list(args[0].args)))])
                    ctx.count("operations of a File")
                    states = [s for s, e in raises]
                    for s, v in rets:
                        states.append(s)
                        if op == "__iter__":
                            states += iterating(it, prop, s, v)
                    for s in states:
                        x = changes(s)
                        if x:
                            ctx.violation("file read only", q, "%s does a %s" % (q, show_change(x[0])), "", s.history())


def iterating(it, prop, st, v):
    from .file_rules import expand
    try:
        r, x = expand(it, prop, [(st, v)], [])
    except Exception:
        return []
    return [s for s, _ in r] + [s for s, _ in x]


# --------------------------------------------------------- what's given is kept

def check_c20(ctx):
    ctx.rule("data kept", "the data given, everything in it and the options are after writing what they were before, whatever the outcome")
    ctx.rule("own options", "a File neither holds nor changes the options object or the keyword arguments given to it")
    ctx.rule("arguments kept", "File.writes, writes, write and savemat leave the dicts and lists given to them as they were")
    lab = Lab(ctx)

    def check(c, kw):
        o = lab.options(**kw)[1]

        def check(it, st, at, held):
            unchanged(it, st, held)
            kept(held.st, st, o, lab.mc, "writing")
        check.raising = True
        return check
    trips(ctx, "data kept", all_cases(), BASIC + SHAPING + CONVERTING + STRUCTS[:2] + COMPLEX + NOPY, lab=lab, check=check, read=False, other=False)
    trips(ctx, "data kept", all_cases(), [("reversed, columns", opts(PY, reverse_dimension_order=True, make_atleast_2d=True, oned_as="column"))] + KEYS + REFS
          if ctx.tier == "thorough" else [], lab=lab, check=check, read=False, other=False)
    own_options(ctx)
    arguments_kept(ctx)
    ctx.need("round trips of data kinds", 2000)
    ctx.need("Files made with options", 1)


def unchanged(it, st, held):
    for k, v in st.p.get("maps", ()):
        o = it.obj(st, v)
        if o is not None and o.kind == "list" and isinstance(o.data, tuple) and [e[0] for e in o.data] != list(k.args[1]):
            raise Diff(True, "stored", "the maps of a ChainMap given are changed by writing it")
    try:
        Comparer(held.it, held.st, it, st).same(held.v, held.v)
    except Diff as e:
        raise Diff(e.sure, "stored", "the data%s is changed to %s by writing it" % (e.where, e.why[:200]))


def reachable_objects(st, x, stop):
    out, todo = set(), [x]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, Term):
            continue
        if x.tag == "tup":
            todo.extend(x.args)
        if x.tag != "obj" or x in out or x in stop:
            continue
        out.add(x)
        o = st.heap.get(x.args[0])
        if o is None:
            continue
        if isinstance(o.data, dict):
            todo.extend(v[0] if isinstance(v, tuple) else v for v in o.data.values())
        elif isinstance(o.data, tuple):
            todo.extend(v[0] if isinstance(v, tuple) else v for v in o.data)
    return out


def own_options(ctx):
    from .refs_rules import FileWorld, options_objects
    world = tree("/a/")
    st0, o0 = options_objects(ctx, matlab_compatible=False)[0]
    for writable in (True, False):
        def build(it):
            return st0.fork(), [], [("filename", typed("filename", "builtins.str")), ("writable", C(writable)), ("options", o0)]
        it, prop, rets, raises = ctx.run(T("cls", FILE), lambda: FileWorld(world), build)
        ctx.count("Files made with options")
        for st, f in rets:
            mc = [v for v in st0.heap[o0.args[0]].data.values() if isinstance(v, Term) and v.tag == "obj" and st0.heap[v.args[0]].kind == "inst"]
            if o0 in reachable_objects(st, f, set(mc)):
                ctx.violation("own options", "File(options)", "a File given an Options holds it rather than a copy, so it changes with it", "", st.history())
        for st in [s for s, _ in rets] + [s for s, _ in raises]:
            if not same_heap(st0, st, o0, o0):
                ctx.violation("own options", "File(options): changed", "making a File changes the options given", "", st.history())
    if not ctx.counts.get("Files made with options"):
        raise AnalysisBroken("the File constructor never returns")


def arguments_kept(ctx):
    """The dicts and lists given to the writing functions."""
    from .conv_rules import Use
    refs = "/#refs#"
    world = populated_for(refs)
    base = file_in(ctx, world, group_for_references=refs)

    def written(it, st):
        return it.alloc(st, Obj("dict", data={C("/x/n"): (sym("data0"), True), C("b\\x2f"): (sym("data1"), True), C("é"): (sym("data2"), True)}))
    held = []

    def build(it):
        st = base[0].fork()
        held[:] = [written(it, st)]
        held.append(st.heap[held[0].args[0]])
        return st, [base[1], held[0]], []
    from .refs_rules import FileWorld
    it, prop, rets, raises = ctx.run(fn(FILE + ".writes"), lambda: FileWorld(world), build)
    ctx.count("calls with dicts")
    for st in [s for s, _ in rets] + [s for s, _ in raises]:
        if st.heap[held[0].args[0]] != held[1]:
            ctx.violation("arguments kept", FILE + ".writes", "File.writes changes the dict given to it", "", st.history())
    for name, args in (("writes", ()), ("savemat", (C("f.mat"),)), ("savemat", (C("f"),))):
        for kw in ((), (("format", C("7.3")),), (("format", C("5")),), (("oned_as", C("column")),)):
            if name == "writes" and kw and kw[0][0] == "format":
                continue
            held = []

            def build(it):
                st = State()
                held[:] = [written(it, st)]
                held.append(st.heap[held[0].args[0]])
                return st, ([held[0]] if name == "writes" else [args[0], held[0]]), list(kw)
            ctx.prog.func("hdf5storage." + name)
            it, prop, rets, raises = ctx.run(fn("hdf5storage." + name), lambda: Use(ctx), build)
            ctx.count("calls with dicts")
            for st in [s for s, _ in rets] + [s for s, _ in raises]:
                if st.heap[held[0].args[0]] != held[1]:
                    ctx.violation("arguments kept", "hdf5storage." + name, "%s changes the dict given to it" % name, "", st.history())


def populated_for(refs):
    from .refs_rules import populated
    return populated(refs)
