"""Checks on the attributes written (C15, C16) and on what happens before and around writing (C17, C18)."""

import posixpath

from .coll_rules import type_strings_for
from .trip_rules import *

NOPY = [("MATLAB compatible, no Python metadata", opts(ML, store_python_metadata=False)),
        ("no metadata", opts(PY, store_python_metadata=False))]
MATLAB_OF = {"bool": "logical", "float32": "single", "float64": "double", "complex64": "single", "complex128": "double", "object": "cell"}
MATLAB_OF.update({k: k for k in ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64")})
AS_DICT = {"builtins.slice": ("start", "stop", "step"), "builtins.range": ("start", "stop", "step"), "fractions.Fraction": ("numerator", "denominator"),
           "datetime.timedelta": ("days", "seconds", "microseconds"), "datetime.timezone": None, "datetime.date": ("year", "month", "day"),
           "datetime.time": None, "datetime.datetime": None}
KEY_TYPES = {"builtins.str": "t", "builtins.bytes": "b", "numpy.str_": "U", "numpy.bytes_": "S"}
PLAIN_NAME = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ ")


class Kind:
    """What data is stored as: an array of a dtype, shape and container, or a dict."""

    def __init__(self, strings, dtype=None, shape=None, container=None, keys=None, items=None):
        self.strings, self.dtype, self.shape, self.container = set(strings), dtype, shape, container
        self.keys, self.items = keys, items     # Of dicts: names of the keys or None; their values


def kind_of(it, st, v):
    """Kind of a value of the model, None when it isn't known."""
    p = it.prop
    if isarr(v):
        c, d, s = p.now(st, v).args[:3]
        nm = type_name(d) if c == "scalar" else "numpy." + c
        return Kind(["numpy.bool"] * (nm == "numpy.bool_") + [nm], d, s, c)
    if v.tag == "dt":
        return Kind(["numpy.dtype"], "S", (), "scalar")
    t = p.type(it, st, v)
    if v.tag == "call" and v.args[0] is ext("collections.ChainMap"):
        return Kind(["collections.ChainMap"], "object", (len(v.args[1]),), "ndarray")
    if v is NONE or v is ext("builtins.Ellipsis") or v is ext("builtins.NotImplemented"):
        return Kind(["builtins." + {NONE: "NoneType", ext("builtins.Ellipsis"): "ellipsis"}.get(v, "NotImplementedType")], "float64", (0,), "ndarray")
    c = Comparer(it, st, it, st).container(it, st, v)
    if c is not None:
        k, cls, items = c
        if k == "?":
            return None
        nm = cls.args[0] if cls is not None else "builtins." + k
        if k != "dict":
            return Kind(type_strings_for(nm), "object", (len(items),), "ndarray", items=items)
        ks = [x for x, y in items]
        names, types = [], ""
        for x in ks:
            kt = p.type(it, st, x)
            e = p.elems(st, x)[0] if isarr(x) else x
            w = cval(e) if is_c(e) else None
            if kt is None or kt.tag != "ext":
                return None
            if kt.args[0] not in KEY_TYPES or not isinstance(w, (str, bytes)) or not w:
                names = None
                break
            names.append(w.decode() if isinstance(w, bytes) else w)
            types += KEY_TYPES[kt.args[0]]
        if names is not None and len(set(names)) != len(names):
            names = None
        return Kind(type_strings_for(nm), keys=(names, types) if names is not None else None, items=[y for x, y in items])
    if t is None or t.tag != "ext":
        return None
    nm = t.args[0]
    if nm in AS_DICT:
        f = AS_DICT[nm]
        return Kind(type_strings_for(nm), keys=(list(f), "t" * len(f)) if f else "individually")
    if nm == "builtins.int" and p.int_fits:
        return Kind(type_strings_for(nm), "int64", (), "scalar")
    if nm in ("builtins.bool", "builtins.float", "builtins.complex"):
        return Kind(type_strings_for(nm), {"bool": "bool", "float": "float64", "complex": "complex128"}[nm[9:]], (), "scalar")
    if nm in ("builtins.str", "builtins.bytes"):
        k = slen(v)
        return Kind(type_strings_for(nm), ("U" if nm == "builtins.str" else "S") + ("" if k is None else str(k)), (), "scalar")
    if nm in ("builtins.bytearray", "builtins.int"):
        return Kind(type_strings_for(nm), "S", (), "scalar")
    return None


def underlying(d):
    """Name of the dtype in the attribute, or how it starts."""
    if d in ("S", "U"):
        return {"S": "bytes", "U": "str"}[d], False
    if kind(d) == "S":
        return "bytes%d" % (8 * itemsize(d)), True
    if kind(d) == "U":
        return "str%d" % (8 * itemsize(d)), True
    return ("object" if kind(d) == "O" else dtype_name(d)), True


def constant(e):
    v = cval(e) if is_c(e) else None
    return v.decode("utf-8", "replace") if isinstance(v, bytes) else v


class Attributes:
    """The attributes of an object compared with what is expected."""

    def __init__(self, what, path, table, vital=True):
        self.what, self.path, self.table = what, path, table
        self.seen = set()

    def bad(self, text, sure=True):
        raise Diff(sure, "stored", "%s, %s: %s" % (self.what, self.path, text))

    def text(self, name, want, whole=True):
        self.seen.add(name)
        if name not in self.table:
            self.bad("there's no attribute %s" % name)
        d, s, el = self.table[name]
        if d is None or s != () or not is_c(el[0]):
            if d is not None and s != ():
                self.bad("the attribute %s has the shape %s" % (name, s))
            if whole:
                self.bad("the attribute %s isn't known" % name, False)
            return
        v = constant(el[0])
        if v not in want if whole else not any(v.startswith(w) for w in want):
            self.bad("the attribute %s is %r instead of %s" % (name, v, " or ".join(map(repr, sorted(want)))))

    def number(self, name, dtype, value):
        self.seen.add(name)
        if name not in self.table:
            self.bad("there's no attribute %s" % name)
        d, s, el = self.table[name]
        if d is None:
            self.bad("the attribute %s isn't known" % name, False)
        if s != () or nat(d) not in dtype or is_c(el[0]) and constant(el[0]) not in value:
            self.bad("the attribute %s is %s of shape %s of %s instead of %s" % (name, show(el[0]) if el else "nothing", s, d, value))

    def array(self, name, dtype, values):
        self.seen.add(name)
        if name not in self.table:
            self.bad("there's no attribute %s" % name)
        d, s, el = self.table[name]
        if d is None:
            self.bad("the attribute %s isn't known" % name, False)
        if nat(d) != dtype or s != (len(values),) or all(map(is_c, el)) and [constant(e) for e in el] != list(values):
            self.bad("the attribute %s is %s of %s instead of %s" % (name, [show(e) for e in el], d, list(values)))

    def letters(self, it, st, name, words):
        self.seen.add(name)
        if name not in self.table:
            self.bad("there's no attribute %s" % name)
        d, s, el = self.table[name]
        if d is None:
            self.bad("the attribute %s isn't known" % name, False)
        got = []
        for e in el:
            if not isarr(e) or kind(e.args[1]) != "S":
                self.bad("the attribute %s isn't made of arrays of characters" % name, isarr(e) or is_c(e))
            got.append([constant(x) for x in it.prop.elems(st, e)])
        if d != "vlenS1" or s != (len(words),) or got != [list(w) for w in words]:
            self.bad("the attribute %s is %s of %s instead of the characters of %s" % (name, got, d, list(words)))

    def absent(self, name):
        self.seen.add(name)
        if name in self.table:
            self.bad("there's the attribute %s" % name)

    def either(self, *names):
        self.seen.update(names)

    def rest(self):
        more = sorted(set(self.table) - self.seen)
        if more:
            self.bad("there's the attribute %s" % more[0])


def ascii_names(names):
    return all(set(n) <= PLAIN_NAME for n in names)


def check_object(it, st, path, v, kw, what, depth=0):
    """Checks the attributes of an object data was stored in, raises Diff."""
    ml, py = bool(kw.get("matlab_compatible")), kw.get("store_python_metadata", True)
    w, ds, at = dict(st.p.get("w", ())), dict(st.p.get("ds", ())), dict(st.p.get("at", ()))
    if path not in w:
        raise Diff(False, "", "%s isn't stored" % path)
    A = Attributes(what, path, dict(at.get(path, ())))
    k = kind_of(it, st, v)
    up = posixpath.dirname(path)
    if ml and up != "/":
        A.text("H5PATH", {up})
    if k is None:
        return
    if py:
        A.text("Python.Type", k.strings)
    if k.dtype is not None:
        array_attributes(it, st, A, k, w[path], ds.get(path), ml, py)
    else:
        dict_attributes(it, st, A, k, kw, ml, py)
    A.rest()
    if depth > 3:
        return
    # What is stored in it.
    if k.dtype is None and isinstance(k.keys, tuple) and k.items is not None and ascii_names(k.keys[0]):
        for n, x in zip(k.keys[0], k.items):
            check_object(it, st, posixpath.join(path, n), x, kw, what, depth + 1)
    elif k.dtype is not None and kind(k.dtype) == "O" and path in ds and ds[path][0] == "ref":
        es = k.items if k.items is not None else it.prop.elems(st, v) if isarr(v) else []
        refs = ds[path][2]
        if len(es) == len(refs) and (k.items is not None or sum(x != 1 for x in k.shape) < 2):
            for x, r in zip(es, refs):
                if r.tag == "h5ref":
                    check_object(it, st, r.args[0], x, kw, what, depth + 1)


def array_attributes(it, st, A, k, stored, data, ml, py):
    d = k.dtype
    empty = not prod(k.shape) or kind(d) in "SU" and d not in ("S", "U") and not itemsize(d)
    fields = [n for n, f in d[1]] if isinstance(d, tuple) and d[0] == "struct" else None
    known = not (d in ("S", "U") and not empty)
    if py:
        A.array("Python.Shape", "uint64", k.shape)
        nm, whole = underlying(d)
        A.text("Python.numpy.UnderlyingType", {nm, nm[:-1]} if nm in ("str0", "bytes0") else {nm}, whole)
        A.text("Python.numpy.Container", {k.container})
        if empty:
            A.number("Python.Empty", ("uint8",), (1,))
        elif not known:
            A.either("Python.Empty")
        if fields is not None and stored == "group" and ascii_names(fields):
            A.array("Python.Fields", "vlenstr", fields)
        elif fields is not None:
            A.either("Python.Fields")
    if ml:
        if empty:
            A.number("MATLAB_empty", ("uint8",), (1,))
        elif not known:
            A.either("MATLAB_empty")
        c = "struct" if fields is not None else "char" if kind(d) in "SU" else MATLAB_OF.get("object" if kind(d) == "O" else nat(d))
        if c is not None:
            A.text("MATLAB_class", {c})
        if c == "logical":
            A.number("MATLAB_int_decode", ("int64",), (1,))
        if c == "char":
            sd = nat(data[0]) if data is not None and isinstance(data[0], str) else None
            A.number("MATLAB_int_decode", ("int64",), {"uint16": (2,), "uint32": (4,)}.get(sd, (1,) if sd and sd[0] == "S" else (2,)))
        if fields is not None and stored == "group" and ascii_names(fields):
            A.letters(it, st, "MATLAB_fields", fields)
        elif fields is not None:
            A.either("MATLAB_fields")


def dict_attributes(it, st, A, k, kw, ml, py):
    if k.keys is None:
        if py:
            A.text("Python.dict.StoredAs", {"keys_values"})
            A.array("Python.dict.keys_values_names", "vlenstr", [kw.get("dict_like_keys_name", "keys"), kw.get("dict_like_values_name", "values")])
    else:
        if py:
            A.text("Python.dict.StoredAs", {"individually"})
        if k.keys == "individually":
            if py:
                A.either("Python.Fields", "Python.dict.key_str_types")
                for n in ("Python.Fields", "Python.dict.key_str_types"):
                    if n not in A.table:
                        A.bad("there's no attribute " + n)
            if ml and "MATLAB_fields" not in A.table:
                A.bad("there's no attribute MATLAB_fields")
            A.either("MATLAB_fields")
        else:
            names, types = k.keys
            if py:
                A.text("Python.dict.key_str_types", {types})
                if ascii_names(names):
                    A.array("Python.Fields", "vlenstr", names)
                else:
                    A.either("Python.Fields")
                    if "Python.Fields" not in A.table:
                        A.bad("there's no attribute Python.Fields")
            if ml and ascii_names(names):
                A.letters(it, st, "MATLAB_fields", names)
            elif ml:
                A.either("MATLAB_fields")
    if ml:
        A.text("MATLAB_class", {"struct"})


def check_gates(it, st, kw, what, refs="/#refs#"):
    """No attribute is anywhere that isn't asked for."""
    ml, py = bool(kw.get("matlab_compatible")), kw.get("store_python_metadata", True)
    w, at = dict(st.p.get("w", ())), dict(st.p.get("at", ()))
    for path, table in at.items():
        for n, v in table:
            if n.startswith("Python.") and not py:
                raise Diff(True, "stored", "%s, %s: there's the attribute %s, though no Python metadata is to be stored" % (what, path, n))
            if not n.startswith("Python.") and not ml and path != refs + "/a":
                raise Diff(True, "stored", "%s, %s: there's the attribute %s, though the options aren't MATLAB compatible" % (what, path, n))
    if ml:
        for path in w:
            up = posixpath.dirname(path)
            if up == "/" or path == refs + "/a":
                continue
            v = dict(at.get(path, ())).get("H5PATH")
            if v is None:
                raise Diff(True, "stored", "%s, %s: there's no attribute H5PATH" % (what, path))
            if v[0] is not None and is_c(v[2][0]) and constant(v[2][0]) != up:
                raise Diff(True, "stored", "%s, %s: the attribute H5PATH is %r" % (what, path, constant(v[2][0])))


def attributes_check(kw, what):
    def check(it, st, at, held):
        check_object(it, st, "/" + at, held.v, kw, what)
        check_gates(it, st, kw, what, kw.get("group_for_references", "/#refs#"))
    return check


def all_cases():
    out = dict(array_cases())
    for c in (object_cases(), value_cases(), dict_cases()):
        out.update(c)
    return out


def check_c15(ctx):
    ctx.rule("attributes", "data has the Python attributes and the MATLAB attributes its type is documented to have exactly when the options ask for them")
    lab = Lab(ctx)
    cases = all_cases()
    skip = lambda c, kw: kw.get("matlab_compatible") and any(x in c for x in NOT_MATLAB_DTYPES)
    trips(ctx, "attributes", cases, BASIC + NOPY + STRUCTS + CONVERTING + SHAPING + KEYS + REFS, skip, lab=lab, check=lambda c, kw: attributes_check(kw, "data"), read=False)
    large = {"large int": I("n"), "list of large ints": ("list", [I("n"), I("m")])}
    trips(ctx, "attributes", large, BASIC + NOPY, world=BigIntWorld, lab=lab, check=lambda c, kw: attributes_check(kw, "data"), read=False)
    some = {"non ASCII " + k: v for k, v in cases.items() if k in ("str", "list", "bytes of one") or "U2 (3" in k}
    trips(ctx, "attributes", some, BASIC + NOPY, world=NonAsciiWorld, lab=lab, check=lambda c, kw: attributes_check(kw, "data"), read=False)
    ctx.need("round trips of data kinds", 4000)


# ------------------------------------------------------- setting attributes

ARR = lambda d, n: (d, (n,), tuple(T("s", "o%d" % i, 3) if d == "vlenstr" else C(40 + i) for i in range(n)))
EXISTING = {
    "a string": ("S3", (), (C(b"abc"),)), "another string": ("S3", (), (C(b"xyz"),)), "a longer string": ("S9", (), (C(b"longer on"),)),
    "a shorter string": ("S1", (), (C(b"q"),)), "a str": ("vlenstr", (), (C("abc"),)), "an array of a string": ("S3", (1,), (C(b"abc"),)),
    "a number": ("int64", (), (C(7),)), "a small number": ("int8", (), (C(7),)), "a number of the other byte order": (">int64", (), (C(7),)),
    "an unsigned number": ("uint8", (), (C(7),)), "a float": ("float64", (), (C(1.5),)), "an array of a number": ("int64", (1,), (C(7),)),
    "numbers": ARR("uint64", 2), "other numbers": ARR("uint64", 3), "signed numbers": ARR("int64", 2), "no numbers": ARR("uint64", 0),
    "strs": ARR("vlenstr", 2), "other strs": ARR("vlenstr", 3), "no strs": ARR("vlenstr", 0),
    "numbers in two dimensions": ("uint64", (1, 2), (C(40), C(41))),
}
WANTED = {
    "a string": lambda it, st: T("tup", C("string"), C("abc")), "a string of numbers": lambda it, st: T("tup", C("string"), C("123")),
    "a long string": lambda it, st: T("tup", C("string"), C("long string")),
    "a number": lambda it, st: T("tup", C("value"), it.prop.scalar(st, "int64", I("m"))),
    "an int": lambda it, st: T("tup", C("value"), I("m")),
    "a small number": lambda it, st: T("tup", C("value"), it.prop.scalar(st, "uint8", I("m"))),
    "a float": lambda it, st: T("tup", C("value"), it.prop.scalar(st, "float64", ty("f", "float"))),
    "numbers": lambda it, st: T("tup", C("value"), it.prop.new(st, "uint64", (2,), (I("m0"), I("m1")))),
    "no numbers": lambda it, st: T("tup", C("value"), it.prop.new(st, "uint64", (0,), ())),
    "signed numbers": lambda it, st: T("tup", C("value"), it.prop.new(st, "int64", (3,), (I("m0"), I("m1"), I("m2")))),
    "strs": lambda it, st: T("tup", C("string_array"), it.alloc(st, Obj("list", data=((S("t0", 3), frozenset()), (S("t1", 2), frozenset()))))),
    "no strs": lambda it, st: T("tup", C("string_array"), it.alloc(st, Obj("list", data=()))),
    "bytes as strs": lambda it, st: T("tup", C("string_array"), it.alloc(st, Obj("list", data=((C(b"ab"), frozenset()), (C(b"c"), frozenset()))))),
}
ASKED = {
    "a string": ("S3", (), (C(b"abc"),)), "a string of numbers": ("S3", (), (C(b"123"),)), "a long string": ("S11", (), (C(b"long string"),)),
    "a number": ("int64", (), (I("m"),)), "an int": ("int64", (), (I("m"),)), "a small number": ("uint8", (), (I("m"),)),
    "a float": ("float64", (), (ty("f", "float"),)), "numbers": ("uint64", (2,), (I("m0"), I("m1"))), "no numbers": ("uint64", (0,), ()),
    "signed numbers": ("int64", (3,), (I("m0"), I("m1"), I("m2"))), "strs": ("vlenstr", (2,), (S("t0", 3), S("t1", 2))), "no strs": ("vlenstr", (0,), ()),
    "bytes as strs": ("vlenstr", (2,), (C("ab"), C("c"))),
}


def fields_attribute(it, st, words):
    a = tuple(it.prop.new(st, "S1", (len(w),), tuple(C(c.encode()) for c in w)) for w in words)
    return ("vlenS1", (len(words),), a)


WORDS = {"fields": ("ab", "c"), "other fields": ("ab", "d"), "fewer fields": ("ab",), "reordered fields": ("c", "ab"), "longer fields": ("abc", "c"),
         "no fields": ()}


def same_term(it, st, a, b):
    """Whether two stored elements are the same: True, False or None."""
    if isarr(a) and isarr(b):
        if a.args[1] != b.args[1] or a.args[2] != b.args[2]:
            return False
        rs = [same_term(it, st, x, y) for x, y in zip(it.prop.elems(st, a), it.prop.elems(st, b))]
        return False if False in rs else None if None in rs else True
    if a is b or a == b:
        return True
    if is_c(a) and is_c(b):
        x, y = constant(a), constant(b)
        return type(x) is type(y) and x == y if isinstance(x, str) or isinstance(y, str) else x == y
    if inputs_only(a) and inputs_only(b):
        return False if a.tag in ("s", "y", "typed", "c") and b.tag in ("s", "y", "typed", "c") else None
    return None


def differs(it, st, want, have):
    """Why a stored attribute isn't as asked for: (sure, text) or None."""
    if have is None:
        return True, "isn't there"
    d, s, el = have
    if d is None:
        return False, "isn't known"
    if s != want[1] or nat(d) != nat(want[0]):
        return True, "is %s of shape %s instead of %s of shape %s" % (d, s, want[0], want[1])
    rs = [same_term(it, st, x, y) for x, y in zip(el, want[2])]
    if False in rs or None in rs:
        return False in rs, "is %s instead of %s" % (", ".join(map(show, el))[:100], ", ".join(map(show, want[2]))[:100])
    return None


def set_jobs():
    """(name of the case, {name: existing}, {name: wanted}, discard)."""
    others = {"MATLAB_empty": "a number", "other": "strs"}
    for discard in (True, False):
        for w in WANTED:
            for e in (None,) + tuple(EXISTING):
                yield dict(others, **({"Python.Shape": e} if e else {})), {"Python.Shape": w}, discard
        for e in tuple(WORDS) + ("a string", "strs", "no strs", "numbers", None):
            for w in WORDS:
                if w != "no fields":
                    yield dict(others, **({"MATLAB_fields": e} if e else {})), {"MATLAB_fields": w}, discard
        yield {}, {}, discard
        yield others, {}, discard
        yield others, dict(others), discard
        yield others, {"MATLAB_empty": "an int", "Python.Type": "a string", "Python.Fields": "strs", "MATLAB_class": "a string of numbers"}, discard
        yield {"Python.Type": "a string", "MATLAB_class": "a string", "H5PATH": "a str"}, {"Python.Type": "a long string", "MATLAB_class": "a string"}, discard


def check_setting(ctx, lab):
    ctx.rule("as requested", "each attribute asked for has the value, type and shape asked for, whatever was there; the others are deleted exactly when that is asked for")
    st0, o, ll = lab.options()
    bad = 0
    for have, want, discard in set_jobs():
        for where in ("dataset", "group") if len(have) > 2 or not have else ("dataset",):
            what = "%s set where there's %s, %s the others" % (
                ", ".join("%s: %s" % kv for kv in want.items()) or "nothing", ", ".join("%s: %s" % kv for kv in have.items()) or "nothing",
                "discarding" if discard else "keeping")
            asked, before = {}, {}

            def args(it, st):
                tab = {}
                for n, e in have.items():
                    tab[n] = fields_attribute(it, st, WORDS[e]) if e in WORDS else EXISTING[e]
                before.update(tab)
                st.p["w"] = tuple(sorted(dict(st.p.get("w", CaseWorld.start), **{"/d": where}).items()))
                st.p["at"] = (("/d", tuple(sorted(tab.items()))),) if tab else ()
                st.p["ev"] = ()
                req = {}
                for n, w in want.items():
                    if w in WORDS:
                        f = fields_attribute(it, st, WORDS[w])
                        asked[n] = f
                        v = T("tup", C("value"), it.prop.new(st, "vlenS1", f[1], f[2]))
                    else:
                        v, asked[n] = WANTED[w](it, st), ASKED[w]
                    req[C(n)] = (v, True)
                return [node("/d", where), it.alloc(st, Obj("dict", data=req)), C(discard)]
            ctx.count("sets of attributes")
            r = lab.run(what, "attributes", st0.fork(), args, CaseWorld)
            if r is None:
                continue
            it, prop, rets, raises = r
            for st, e in raises:
                if reachable(set(st.facts) - set(st0.facts)):
                    bad += 1
                    if bad < STOP_AFTER:
                        ctx.violation("as requested", what, "%s raises %s" % (what, e.name), e.site)
                else:
                    ctx.note_undecided("%s raises %s" % (what, e.name))
            for st, v in rets:
                table = dict(dict(st.p.get("at", ())).get("/d", ()))
                why = []
                for n, w in asked.items():
                    x = differs(it, st, w, table.get(n))
                    if x:
                        why.append((x[0], "the attribute %s %s" % (n, x[1])))
                for n in set(before) - set(asked):
                    if discard and n in table:
                        why.append((True, "the attribute %s is still there" % n))
                    elif not discard:
                        x = differs(it, st, before[n], table.get(n))
                        if x:
                            why.append((x[0], "the attribute %s, which wasn't asked for, %s" % (n, x[1])))
                more = set(table) - set(asked) - set(before)
                if more:
                    why.append((True, "there's the attribute %s, which wasn't asked for" % sorted(more)[0]))
                if not why:
                    ctx.count("sets decided")
                    ctx.sample(what)
                for sure, y in why:
                    if sure and reachable(set(st.facts) - set(st0.facts)):
                        bad += 1
                        if bad < STOP_AFTER:
                            ctx.violation("as requested", what, "%s: %s" % (what, y), "")
                    else:
                        ctx.note_undecided("%s: %s" % (what, y))


def second_only(kw, what):
    """Checks the attributes of what is written once the options are changed."""
    def check(it, st, at, held):
        if st.p.get("switched"):
            check_object(it, st, "/" + at, held.v, kw, what)
    return check


def check_c16(ctx):
    lab = Lab(ctx)
    check_setting(ctx, lab)
    ctx.rule("attributes after", "data has exactly the attributes of its kind also when other data, or data written with other options, was there before")
    o = [BASIC[0], REFS[2]]
    trips(ctx, "attributes after", pairs("x"), o if ctx.tier != "thorough" else o + NOPY, lab=lab, check=lambda c, kw: attributes_check(kw, "data"), read=False)
    ks = kinds()
    for name, kw in BASIC + NOPY:
        for name2, kw2 in BASIC + NOPY + STRUCTS:
            if name != name2 and "float16" not in name:
                cases = {"%s, then %s" % (k, name2): [("x", v), (switched(**kw2), None), ("x", renamed(v, "'"))] for k, v in ks.items()}
                trips(ctx, "attributes after", cases, [(name, kw)], lab=lab, check=lambda c, kw, kw2=kw2: second_only(kw2, "data"), read=False)
    ctx.need("sets of attributes", 500)
    ctx.need("round trips of data kinds", 2000)
