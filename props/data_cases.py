"""Data of every supported kind with unknown values, and comparing it.

A case is a spec from which the data is built in the model: a term for a
value, ("list", items), ("dict", pairs), ("nd", container, dtype, shape,
elements), ("dt", dtype).  Unknown values are symbols, so that a case stands
for all data of its types, sizes and keys.
"""

from .data_rules import *
from sa.interp import Obj

NOFACTS = frozenset()
SEQ = ("list", "deque")
DICTS = ("dict", "OrderedDict", "Counter")
DT_OVER = {("tm", "fold"): C(0), ("dt", "fold"): C(0), ("tm", "tzinfo"): NONE, ("dt", "tzinfo"): NONE}
# Values with known parts: {name: (class, {part: value})}.
KNOWN = {
    "slice(None)": ("builtins.slice", dict(start=None, stop=None, step=None)),
    "slice(0)": ("builtins.slice", dict(start=0, stop=0, step=0)),
    "slice(None, 3)": ("builtins.slice", dict(start=None, stop=3, step=None)),
    "slice(-1, None, -1)": ("builtins.slice", dict(start=-1, stop=None, step=-1)),
    "slice of str": ("builtins.slice", dict(start="", stop="b", step="c")),
    "slice of float": ("builtins.slice", dict(start=0.0, stop=0.5, step=False)),
    "range(0)": ("builtins.range", dict(start=0, stop=0, step=1)),
    "range(5, 0, -1)": ("builtins.range", dict(start=5, stop=0, step=-1)),
    "midnight": ("datetime.time", dict(hour=0, minute=0, second=0, microsecond=0, fold=0, tzinfo=None)),
    "folded": ("datetime.time", dict(hour=1, minute=30, second=0, microsecond=0, fold=1, tzinfo=None)),
    "new year": ("datetime.datetime", dict(year=1, month=1, day=1, hour=0, minute=0, second=0, microsecond=0, fold=0, tzinfo=None)),
    "folded datetime": ("datetime.datetime", dict(year=2020, month=10, day=25, hour=2, minute=0, second=0, microsecond=7, fold=1, tzinfo=None)),
    "first date": ("datetime.date", dict(year=1, month=1, day=1)),
    "no time": ("datetime.timedelta", dict(days=0, seconds=0, microseconds=0)),
    "a moment": ("datetime.timedelta", dict(days=0, seconds=0, microseconds=1)),
    "a moment before": ("datetime.timedelta", dict(days=-1, seconds=86399, microseconds=999999)),
    "zero": ("fractions.Fraction", dict(numerator=0, denominator=1)),
    "one": ("fractions.Fraction", dict(numerator=1, denominator=1)),
    "minus one": ("fractions.Fraction", dict(numerator=-1, denominator=1)),
    "seven fifths": ("fractions.Fraction", dict(numerator=7, denominator=5)),
    "a large one": ("fractions.Fraction", dict(numerator=-2**70, denominator=3**50)),
    "leap day": ("datetime.date", dict(year=2020, month=2, day=29)),
    "last moment": ("datetime.datetime", dict(year=9999, month=12, day=31, hour=23, minute=59, second=59, microsecond=999999, fold=0, tzinfo=None)),
    "a negative": ("fractions.Fraction", dict(numerator=-1, denominator=3)),
}
DT_OVER.update({(n, k): C(v) for n, (c, ps) in KNOWN.items() for k, v in ps.items()})


class CaseWorld(DataWorld):
    max_steps = 80000
    over = DT_OVER


def S(name, n, *a):
    return T("s", name, n, *a)


def Y(name, n):
    return T("y", name, n)


def ty(name, cls):
    return typed(name, cls if "." in cls else "builtins." + cls)


def I(name):
    return ty(name, "int")


def mk(p, it, st, s):
    """The data of a spec."""
    if isinstance(s, Term):
        return s
    k = s[0]
    if k in SEQ:
        return it.alloc(st, Obj("list", data=tuple((mk(p, it, st, x), NOFACTS) for x in s[1]), cls=ext("collections.deque") if k == "deque" else None))
    if k in ("set", "frozenset"):
        return it.alloc(st, Obj("set", data=tuple((mk(p, it, st, x), NOFACTS) for x in s[1]), cls=ext("builtins.frozenset") if k == "frozenset" else None))
    if k == "tuple":
        return T("tup", *[mk(p, it, st, x) for x in s[1]])
    if k in DICTS:
        o = Obj("dict", data={mk(p, it, st, a): (mk(p, it, st, b), True) for a, b in s[1]}, cls=None if k == "dict" else ext("collections." + k))
        return it.alloc(st, o)
    if k == "ChainMap":
        return T("call", ext("collections.ChainMap"), tuple(mk(p, it, st, x) for x in s[1]), ())
    if k == "nd":
        _, cont, d, shape, el = s
        if cont == "scalar":
            return p.scalar(st, d, mk(p, it, st, el[0]))
        return p.new(st, d, shape, [mk(p, it, st, e) for e in el], cont)
    if k == "dt":
        return T("dt", s[1])
    if k == "rec":
        return T("rec", *[(n, mk(p, it, st, x)) for n, x in s[1]])
    if k == "view":
        return rearranged(p, mk(p, it, st, s[2]), s[1])
    raise ValueError(k)


def rearranged(p, t, how):
    """A view of an array whose elements aren't next to each other."""
    if how == "transposed":
        return p.transpose(t)
    c, d, s, buf, mp = t.args
    k = size(s[1:])
    rows = [mp[i * k:(i + 1) * k] for i in range(s[0])]
    rows = rows[::-1] if how == "reversed" else rows[::2]
    return T("nd", c, d, (len(rows),) + s[1:], buf, tuple(m for r in rows for m in r))


def size(sh):
    n = 1
    for k in sh:
        n *= k
    return n


def value(d, i, tag="e"):
    """An unknown element of a dtype."""
    nm = "%s%d" % (tag, i)
    if isinstance(d, tuple) and d[0] == "sub":
        return T("arr", tuple(value(d[1], j, nm + "_") for j in range(size(d[2]))))
    k = kind(d)
    if k == "S":
        return Y(nm, itemsize(d))
    if k == "U":
        return S(nm, itemsize(d) // 4)
    if k == "V" and not isinstance(d, tuple):
        return ty(nm, "numpy.void")
    if k == "V":
        return T("rec", *[(n, value(f, i, tag + n)) for n, f in d[1]])
    if k == "O":
        return I(nm) if i % 2 == 0 else S(nm, 2)
    return ty(nm, {"b": "bool", "f": "float", "c": "complex"}.get(k, "int"))


def array(d, sh, cont="ndarray"):
    return ("nd", cont, d, sh, [value(d, i) for i in range(size(sh))])


REC = ("struct", (("a", "int64"), ("b", "float32"), ("c", "S3")))
RECU = ("struct", (("n", "U2"), ("z", "complex128"), ("t", "bool")))
RECO = ("struct", (("a", "int64"), ("o", "object")))
RECA = ("struct", (("a", ("sub", "int16", (2, 3))), ("b", ("sub", "S2", (2,)))))
RECN = ("struct", (("p/q", "int64"), (".", "float64"), ("r\0s", "int8")))
RECB = ("struct", (("a", ">int32"), ("b", "int64"), ("u", ">U2"), ("z", ">complex64")))
NUMERIC = ("bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64",
           "float16", "float32", "float64", "complex64", "complex128")
SHAPES = ((), (0,), (1,), (3,), (2, 3), (1, 1), (3, 0), (0, 3), (2, 1, 3))


def array_cases():
    """Name -> spec, of numpy scalars and arrays without objects."""
    out = {}
    for d in NUMERIC:
        out["numpy.%s" % ("bool_" if d == "bool" else d)] = array(d, (), "scalar")
        for sh in SHAPES:
            out["array %s %s" % (d, sh)] = array(d, sh)
        out["matrix %s" % d] = array(d, (2, 3), "matrix")
    for d in ("S3", "U2", "S1", "U1"):
        out["numpy.%s %s" % ("bytes_" if d[0] == "S" else "str_", d)] = array(d, (), "scalar")
        for sh in SHAPES:
            out["array %s %s" % (d, sh)] = array(d, sh)
            if sh and len(sh) < 3:
                out["chararray %s %s" % (d, sh)] = array(d, sh, "chararray")
    for nm, d in (("plain", REC), ("str", RECU), ("named", RECN)):
        out["numpy.void %s" % nm] = array(d, (), "scalar")
        for sh in ((), (0,), (1,), (3,), (2, 2)):
            out["structured %s %s" % (nm, sh)] = array(d, sh)
            out["recarray %s %s" % (nm, sh)] = array(d, sh, "recarray")
    for sh in ((), (1,), (3,), (2, 2)):
        out["structured subarrays %s" % (sh,)] = array(RECA, sh)
    for how in ("transposed", "reversed", "strided"):
        for d in ("int16", "float64", "complex64", "bool", "S3", "U2", REC):
            for sh in ((4,), (3, 2)):
                if how != "transposed" or len(sh) > 1:
                    out["%s array %s %s" % (how, "structured" if d is REC else d, sh)] = ("view", how, array(d, sh))
    for d in (">int32", ">uint16", ">uint64", ">float32", ">complex128", ">U2", RECB):
        nm = "structured" if d is RECB else d
        for sh in ((), (0,), (3,), (2, 3)):
            if sh != (0,) or d is not RECB:
                out["array %s %s" % (nm, sh)] = array(d, sh)
    for d in ("int16", "bool", "complex64", "S2", "U2", ">float32"):
        for sh in ((1, 2, 3, 2), (3, 0, 1, 2)):
            out["array %s %s" % (d, sh)] = array(d, sh)
    out["numpy.void bare"] = array("void3", (), "scalar")
    for sh in ((), (0,), (3,), (2, 3)):
        out["array void3 %s" % (sh,)] = array("void3", sh)
    out["matrix >int32"] = array(">int32", (2, 3), "matrix")
    return out


def object_cases():
    """Name -> spec, of containers stored by references."""
    out = {}
    for sh in SHAPES:
        out["object array %s" % (sh,)] = array("object", sh)
    for sh in ((2,), (2, 2)):
        out["structured objects %s" % (sh,)] = array(RECO, sh)
    items = [I("n"), S("s", 2), NONE]
    for k in ("list", "tuple", "set", "frozenset", "deque"):
        out[k] = (k, items)
        out["empty " + k] = (k, [])
        out["%s of one" % k] = (k, [ty("f", "float")])
    out["nested"] = ("list", [("list", [I("a")]), ("tuple", [S("b", 1), ("list", [])]), ("deque", [I("c"), I("d")])])
    out["list of arrays"] = ("list", [array("int16", (2, 3)), ("nd", "ndarray", "S2", (2,), [Y("p", 2), Y("q", 2)])])
    out["list of dicts"] = ("list", [("dict", [(C("a"), I("x"))]), ("dict", [(C(1), S("y", 2))])])
    out["empties"] = ("list", [("list", []), ("tuple", []), ("set", []), ("dict", []), C(""), C(b""), NONE])
    out["deque of empties"] = ("deque", [("deque", []), ("frozenset", []), ("OrderedDict", []), ("list", [("list", [])])])
    out["tuple of equals"] = ("tuple", [C(1), C(True), C(1.0), C("1"), C(b"1")])
    out["list of one list"] = ("list", [("list", [I("n"), I("m")])])
    out["list of equal lists"] = ("list", [("list", [I("n"), I("m")]), ("list", [I("k"), I("l")])])
    out["list of one array"] = ("list", [array("int16", (3,))])
    out["same twice"] = ("list", [I("n"), I("n")])
    return out


def field_cases():
    """Name -> spec, of structured arrays whose objects make a field of one dtype or not."""
    out = {}
    np = lambda d, sh, t: ("nd", "scalar" if sh is None else "ndarray", d, sh or (), [value(d, i, t) for i in range(size(sh or ()))])
    differ = {
        "lengths": (np("int64", (3,), "a"), np("int64", (1,), "b")), "dimensions": (np("int64", (2,), "a"), np("int64", (1, 2), "b")),
        "orientation": (np("int16", (2, 1), "a"), np("int16", (1, 2), "b")), "dtypes": (np("int16", None, "a"), np("int32", None, "b")),
        "dtypes of arrays": (np("float32", (2,), "a"), np("float64", (2,), "b")), "room for characters": (np("U2", None, "a"), np("U3", None, "b")),
        "a scalar and an array": (np("int64", None, "a"), np("int64", (2,), "b")), "an array and a scalar": (np("int64", (2,), "a"), np("int64", None, "b")),
        "an array and None": (np("int64", (2,), "a"), NONE), "None and an array": (NONE, np("int64", (2,), "b")),
        "an array and a list": (np("object", (2,), "a"), ("list", [I("b"), I("c")])), "a list and a tuple": (("list", [I("b")]), ("tuple", [I("c")])),
        "empty and not": (np("int64", (0,), "a"), np("int64", (2,), "b")), "dicts": (("dict", []), ("dict", [(C("k"), I("c"))])),
        "bytes and str": (np("S2", None, "a"), np("U2", None, "b")), "sign": (np("uint8", None, "a"), np("int8", None, "b")),
    }
    for nm, (a, b) in differ.items():
        out["structured objects of different %s" % nm] = ("nd", "ndarray", ("struct", (("a", "int64"), ("o", "object"))), (2,), [("rec", [("a", I("i")), ("o", a)]), ("rec", [("a", I("j")), ("o", b)])])
    return out


def value_cases():
    """Name -> spec, of the builtin types other than arrays and containers."""
    out = {}
    for k in ("bool", "int", "float", "complex", "bytearray", "slice", "range"):
        out[k] = ty("v", k)
    out["int constant"] = C(5)
    out["str"], out["empty str"], out["str of one"] = S("t", 3), C(""), S("t", 1)
    out["bytes"], out["empty bytes"], out["bytes of one"] = Y("b", 3), C(b""), Y("b", 1)
    out["None"], out["Ellipsis"], out["NotImplemented"] = NONE, ext("builtins.Ellipsis"), ext("builtins.NotImplemented")
    out["date"], out["time"], out["datetime"] = ty("d", "datetime.date"), ty("tm", "datetime.time"), ty("dt", "datetime.datetime")
    out["timedelta"], out["timezone"] = ty("td", "datetime.timedelta"), ty("tz", "datetime.timezone")
    out["Fraction"] = ty("fr", "fractions.Fraction")
    out["datetime with zone"], out["time with zone"] = ty("dtz", "datetime.datetime"), ty("tmz", "datetime.time")
    for n, (cls, parts) in KNOWN.items():
        out["%s, %s" % (cls.rpartition(".")[2], n)] = ty(n, cls)
    out["dtype"], out["structured dtype"] = ("dt", "float64"), ("dt", REC)
    out["dtype with objects"] = ("dt", RECO)
    return out


def dict_cases():
    """Name -> spec, of dict like data by their keys."""
    out = {}
    x, y, w = I("x"), S("y", 2), ty("w", "float")
    np_str = ("nd", "scalar", "U2", (), [C("ab")])
    np_bytes = ("nd", "scalar", "S2", (), [C(b"cd")])
    keys = {
        "str": [C("a"), C("b")], "none": [], "bytes": [C(b"a"), C(b"b")], "str and bytes": [C("a"), C(b"b")],
        "int": [C(1), C(2)], "mixed": [C("a"), C(b"b"), C(3)], "empty str": [C("a"), C("")], "empty bytes": [C(b""), C("b")],
        "colliding": [C("a"), C(b"a")], "separators": [C("a/b"), C(".")], "null": [C("a\0b"), C("\0")],
        "escapes": [C("a\\x2fb"), C("a/b")], "backslash": [C("\\"), C("\\\\")], "periods": [C(".."), C("...")],
        "reserved": [C("keys"), C("values")], "numpy": [np_str, np_bytes], "non ascii": [C("\u03b1\U00010000"), C("b")],
        "None": [NONE, C("a")], "float": [C(0.5), C("a")], "tuple": [("tuple", [C(1), C("b")]), C("a")],
        "order": [C("z"), C("a"), C("m")],
    }
    for k in DICTS:
        for n, ks in keys.items():
            vs = [x, y, w] if k != "Counter" else [I("x"), I("y"), I("w")]
            out["%s, keys %s" % (k, n)] = (k, list(zip(ks, vs)))
    out["dict of values"] = ("dict", [(C("a"), ("list", [I("n"), NONE])), (C("b"), S("t", 2)), (C("c"), array("float32", (2, 3))), (C("d"), ("dict", [(C("e"), I("u"))]))])
    for nm, text in (("escaped twice", "a\\x41"), ("escaped null", "\\x00"), ("escaped u", "\\u0041\\\\"), ("dots escaped", "\\x2e."), ("slash", "/\\/")):
        u, y2 = ("nd", "scalar", "U%d" % len(text), (), [C(text)]), ("nd", "scalar", "S%d" % len(text), (), [C(text.encode())])
        for k, ks in (("str", [C("z"), C(text)]), ("bytes", [C("z"), C(text.encode())]), ("numpy str", [C("z"), u]), ("numpy bytes", [C("z"), y2])):
            out["dict, key %s of %s" % (nm, k)] = ("dict", list(zip(ks, [x, y])))
    out["ChainMap, the first empty"] = ("ChainMap", [("dict", []), ("dict", [(C("b"), y)])])
    out["ChainMap, the last empty"] = ("ChainMap", [("dict", [(C("b"), y)]), ("dict", [])])
    out["ChainMap of an empty one"] = ("ChainMap", [("dict", [])])
    out["ChainMap of an OrderedDict"] = ("ChainMap", [("OrderedDict", [(C("b"), y), (C("a"), x)])])
    out["ChainMap"] = ("ChainMap", [("dict", [(C("a"), x)]), ("dict", [(C("b"), y), (C("a"), w)])])
    return out


# ------------------------------------------------------------- comparing

RANK = {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}


def source(e):
    """(symbol, the dtypes it's converted through) when nothing else is done."""
    through = []
    while e.tag == "cast":
        through.append(e.args[1])
        e = e.args[0]
    return e, through


def loses(d, through):
    """Whether converting through one of the dtypes changes some value of dtype d."""
    if not isinstance(d, str) or kind(d) not in RANK:
        return False
    for x in through:
        if not isinstance(x, str) or kind(x) not in RANK:
            return False
        if RANK[kind(x)] < RANK[kind(d)] or kind(x) == kind(d) and NUM[x] < NUM[d] or kind(d) == "i" and kind(x) == "u":
            return True
        if kind(d) == "u" and kind(x) == "i" and NUM[x] <= NUM[d]:
            return True
        if kind(d) in "iu" and kind(x) == "f" and NUM[x] <= NUM[d]:
            return True
    return False


def is_input(e):
    return e.tag in ("typed", "s", "y")


def unit_of(u):
    """(input, position, swapped) a unit is taken from."""
    sw = False
    while u.tag in ("sw", "cast"):
        sw ^= u.tag == "sw"
        u = u.args[0]
    if u.tag in ("ch", "by", "cu") and (is_input(u.args[0]) or is_c(u.args[0])):
        return u.args[0], u.args[1], sw
    return None


def clearly_other(a, d, e):
    """Whether the element can't be the input for all values of it."""
    if is_input(a):
        if is_input(e):
            return True
        if is_c(e):
            return True
        b, through = source(e)
        if is_input(b) and (b is not a or loses(d, through)):
            return True
        if e.tag == "sw" and is_input(source(e.args[0])[0]):
            return True
        if e.tag in ("grp", "decoded"):
            us = [unit_of(u) for u in e.args[0]]
            if None not in us and all(is_input(u[0]) or is_c(u[0]) for u in us):
                n = a.args[1] if a.tag in ("s", "y") else None
                same = len(us) == n and all(u[0] is a and u[1] == j for j, u in enumerate(us))
                return not same or any(u[2] for u in us) and e.tag == "grp"
        if e.tag in ("re", "im"):
            return True
        if e.tag == "nobom":
            return True
        if e.tag == "dec" and e.args[1].tag == "cutnulls":
            return True
        if e.tag == "cplx":
            r, i = e.args
            if any(x.tag == "sw" and x.args[0].tag in ("re", "im") for x in (r, i)):
                return True
            return r.tag == "im" and i.tag == "re" and r.args[0] is a
        return False
    if is_c(a):
        if is_c(e):
            return type(cval(a)) is not type(cval(e)) and not (isinstance(cval(a), (bool, int, float)) and isinstance(cval(e), (bool, int, float))) or cval(a) != cval(e)
        return is_input(e)
    return False


class Diff(Exception):
    def __init__(self, sure, where, why):
        self.sure, self.where, self.why = sure, where, why


def short(it, st, v, depth=0):
    p = it.prop
    if isarr(v):
        t = p.now(st, v)
        c, d, s = t.args[:3]
        es = p.elems(st, t)
        return "%s of %s, shape %s: [%s%s]" % (c, d, s, ", ".join(short(it, st, e, depth + 1) for e in es[:4]), ", ..." if len(es) > 4 else "")
    if v.tag == "tup":
        return "(%s)" % ", ".join(short(it, st, x, depth + 1) for x in v.args)
    o = it.obj(st, v)
    if o is not None and depth < 3:
        nm = str(o.cls.args[0]) if o.cls is not None else o.kind
        if o.kind == "dict":
            return nm + "{%s}" % ", ".join("%s: %s" % (short(it, st, k, depth + 1), short(it, st, x[0], depth + 1)) for k, x in o.data.items())
        if o.kind in ("list", "set"):
            return nm + "[%s]" % ", ".join(short(it, st, e[0], depth + 1) for e in o.data)
    return show(v)


MADE_OF = {ext("collections.deque"): "list", ext("collections.Counter"): "dict", ext("collections.OrderedDict"): "dict",
           ext("builtins.frozenset"): "set"}
SINGLE = {"NoneType": NONE, "ellipsis": ext("builtins.Ellipsis"), "NotImplementedType": ext("builtins.NotImplemented")}
ARGUMENTS = {
    "builtins.slice": ("start", "stop", "step"), "builtins.range": ("start", "stop", "step"),
    "datetime.date": ("year", "month", "day"), "datetime.time": ("hour", "minute", "second", "microsecond", "tzinfo"),
    "datetime.datetime": ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"),
    "datetime.timedelta": ("days", "seconds", "microseconds"), "datetime.timezone": ("offset", "name"),
    "fractions.Fraction": ("numerator", "denominator"),
}
LEFT_OUT = {"tzinfo": NONE, "fold": C(0), "microseconds": C(0), "seconds": C(0), "days": C(0)}


def arguments(v):
    """{parameter: argument} of a call making a value of a known class."""
    names = ARGUMENTS.get(v.args[0].args[0]) if v.tag == "call" and v.args[0].tag == "ext" else None
    if names is None or len(v.args[1]) > len(names):
        return None
    out = dict(zip(names, v.args[1]))
    for k, x in v.args[2]:
        if k is None or isinstance(k, Term) and not is_c(k):
            return None
        out[cval(k) if isinstance(k, Term) else k] = x
    return out


ZONE = T("s", "zone name", 3)


def made(v, named=False):
    """What a call of a constructor gives, when it's one of the values given."""
    if is_c(v) and type(cval(v)) in (slice, range):
        w = cval(v)
        v = T("call", ext("builtins." + type(w).__name__), (C(w.start), C(w.stop), C(w.step)), ())
    if v.tag != "call" or v.args[0].tag != "ext":
        return v
    nm = v.args[0].args[0].rpartition(".")[2]
    if nm in SINGLE and not v.args[1] and not v.args[2]:
        return SINGLE[nm]
    given = arguments(v)
    if given is None:
        return v
    given = {k: made(x, named) for k, x in given.items()}
    if v.args[0] is ext("datetime.timezone") and named and given.pop("name", None) is not named:
        return typed("a time zone without its name", "datetime.timezone")
    from_ = {x.args[0].args[0] for k, x in given.items() if x.tag == "typed" and x.args[0].tag == "part" and x.args[0].args[1] == k}
    if not from_:
        return known(v, given)
    if len(from_) != 1:
        return v
    s = from_.pop()
    names = tuple(k for k in ARGUMENTS[v.args[0].args[0]] if k != "name")
    for k in names + ("fold",):
        x = given.pop(k, LEFT_OUT.get(k))
        if x is None:
            return v
        if x.tag == "typed" and x.args[0] is T("part", s, k):
            continue
        if x is not LEFT_OUT.get(k) or k not in ("tzinfo", "fold"):
            return v
    return T("typed", s, v.args[0]) if not given else v


def known(v, given):
    """The value of known parts a call with arguments gives, if any."""
    for n, (cls, parts) in KNOWN.items():
        if v.args[0] is ext(cls):
            have = dict({k: LEFT_OUT[k] for k in parts if k in LEFT_OUT}, **given)
            if set(have) == set(parts) and all(is_c(x) and type(cval(x)) is type(parts[k]) and cval(x) == parts[k] for k, x in have.items()):
                return ty(n, cls)
    return v


class Comparer:
    """Compares a value of one state with one of another."""

    def __init__(self, it1, st1, it2, st2):
        self.i1, self.s1, self.i2, self.s2 = it1, st1, it2, st2

    def type1(self, v):
        return self.i1.prop.type(self.i1, self.s1, v)

    def type2(self, v):
        return self.i2.prop.type(self.i2, self.s2, v)

    def fail(self, sure, where, a, b):
        raise Diff(sure, where, "%s for %s" % (short(self.i2, self.s2, b), short(self.i1, self.s1, a)))

    def container(self, it, st, v):
        """(kind, class, items) of an exactly known container."""
        if v.tag == "tup":
            return "tuple", None, list(v.args)
        if v.tag == "call" and v.args[0] in MADE_OF and len(v.args[1]) == 1 and not v.args[2]:
            c = self.container(it, st, v.args[1][0])
            k = MADE_OF[v.args[0]]
            if c is None or c[0] == "?" or k == "dict" and c[0] != "dict":
                return "?", None, None
            return k, v.args[0], [x[0] for x in c[2]] if c[0] == "dict" and k != "dict" else c[2]
        o = it.obj(st, v)
        if o is None:
            return None
        if not o.exact or o.kind not in ("list", "set", "dict"):
            return "?", None, None
        if o.kind == "dict":
            if not all(m for x, m in o.data.values()):
                return "?", None, None
            return "dict", o.cls, [(k, x[0]) for k, x in o.data.items()]
        return o.kind, o.cls, [e[0] for e in o.data]

    def same(self, a, b, where=""):
        """Raises Diff unless the values are equal."""
        b = made(b, self.i2.prop.tz_named)
        if a is b and not isarr(a) and self.i1.obj(self.s1, a) is None and a.tag not in ("tup", "call"):
            return
        if isarr(a) or isarr(b):
            return self.arrays(a, b, where)
        x, y = self.container(self.i1, self.s1, a), self.container(self.i2, self.s2, b)
        if x is not None or y is not None:
            return self.containers(a, b, x, y, where)
        if a.tag == "call" and b.tag == "call" and a.args[0] is b.args[0] and len(a.args[1]) == len(b.args[1]):
            for i, (p, q) in enumerate(zip(a.args[1], b.args[1])):
                self.same(p, q, where + ".%d" % i)
            return
        if a.tag == "call" and b.tag == "call" and a.args[0] is b.args[0] is ext("collections.ChainMap") and not b.args[2]:
            n, m = len(a.args[1]), len(b.args[1])
            one = self.container(self.i1, self.s1, a.args[1][0]) if n == 1 else None
            if m == 0 and one is not None and one[0] == "dict" and one[1] is None and not one[2]:
                return
            self.fail(not any(x.tag == "star" for x in b.args[1]) and max(n, 1) != max(m, 1), where, a, b)
        if a.tag == "dt" and b.tag == "dt":
            if a is not b:
                self.fail(True, where, a, b)
            return
        ta, tb = self.type1(a), self.type2(b)
        if ta is None or tb is None:
            self.fail(False, where, a, b)
        if ta is not tb:
            self.fail(True, where, a, b)
        if is_c(a) and is_c(b) and cval(a) == cval(b):
            return
        if clearly_other(a, None, b):
            self.fail(True, where, a, b)
        r = self.parts(a, b)
        if r is not None:
            self.fail(r, where, a, b)
        self.fail(False, where, a, b)

    def parts(self, a, b):
        """For a value made from parts of the right one in the wrong places."""
        if is_input(a) and b.tag == "call":
            return bool(b.args[1]) and all(x.tag == "part" or is_c(x) for x in b.args[1] if isinstance(x, Term))
        return None

    def arrays(self, a, b, where):
        if not (isarr(a) and isarr(b)):
            o = b if isarr(a) else a
            t = self.type2(b) if isarr(a) else self.type1(a)
            c = self.container(self.i2, self.s2, b) if isarr(a) else self.container(self.i1, self.s1, a)
            self.fail(t is not None or c is not None and c[0] != "?", where, a, b)
        x, y = self.i1.prop.now(self.s1, a), self.i2.prop.now(self.s2, b)
        if x.args[0] != y.args[0] or nat(x.args[1]) != nat(y.args[1]) or x.args[2] != y.args[2]:
            self.fail(True, where, a, b)
        es = list(zip(self.i1.prop.elems(self.s1, x), self.i2.prop.elems(self.s2, y)))
        unsure = None
        for i, (p, q) in enumerate(es):
            try:
                self.element(p, q, x.args[1], where + "[%d]" % i)
            except Diff as e:
                if e.sure:
                    raise
                unsure = e
        if unsure is not None:
            raise unsure

    def element(self, p, q, d, where):
        if p is q:
            return
        if isinstance(d, tuple) and d[0] == "struct":
            if p.tag != "rec" or q.tag != "rec":
                self.fail(False, where, p, q)
            m, n = dict(p.args), dict(q.args)
            if set(m) != set(n):
                self.fail(True, where, p, q)
            for k, f in d[1]:
                self.element(m[k], n[k], f, where + "." + k)
            return
        if isinstance(d, tuple) and d[0] == "sub":
            if p.tag != "arr" or q.tag != "arr" or len(p.args[0]) != len(q.args[0]):
                self.fail(False, where, p, q)
            for i, (u, v) in enumerate(zip(p.args[0], q.args[0])):
                self.element(u, v, d[1], where + "[%d]" % i)
            return
        if kind(d) == "O":
            return self.same(p, q, where)
        if is_c(p) and is_c(q) and cval(p) == cval(q):
            return
        self.fail(clearly_other(p, d, q), where, p, q)

    def containers(self, a, b, x, y, where):
        if x is None or y is None:
            known = y if x is None else x
            t = self.type1(a) if x is None else self.type2(b)
            self.fail(known[0] != "?" and (t is not None or isarr(b)), where, a, b)
        if "?" in (x[0], y[0]):
            self.fail(False, where, a, b)
        if x[:2] != y[:2] or len(x[2]) != len(y[2]):
            self.fail(True, where, a, b)
        if x[0] in ("list", "tuple"):
            for i, (p, q) in enumerate(zip(x[2], y[2])):
                self.same(p, q, where + "[%d]" % i)
            return
        if x[0] == "set":
            return self.matched([(p, p) for p in x[2]], [(q, q) for q in y[2]], where, a, b)
        if x[1] is ext("collections.OrderedDict"):
            for (k, p), (l, q) in zip(x[2], y[2]):
                self.same(k, l, where + ".keys()")
        self.matched(x[2], y[2], where, a, b)

    def matched(self, xs, ys, where, a, b):
        left = list(ys)
        for k, p in xs:
            unsure = False
            for i, (l, q) in enumerate(left):
                try:
                    self.same(k, l)
                except Diff as e:
                    unsure |= not e.sure
                    continue
                if k is not p or l is not q:
                    self.same(p, q, where + "[%s]" % short(self.i1, self.s1, k))
                del left[i]
                break
            else:
                self.fail(not unsure, where, a, b)


# ------------------------------------------------------------ round trips

class Outcome:
    """How one path of writing and reading back ends."""

    def __init__(self, kind, st, where="", why="", site="", event=None):
        self.kind, self.st, self.where, self.why, self.site = kind, st, where, why, site


def inputs_only(t):
    """Whether a term is about given values only."""
    if not isinstance(t, Term):
        if isinstance(t, (tuple, list)):
            return all(inputs_only(x) for x in t)
        return True
    if t.tag in ("top", "h5", "obj", "unk", "nd"):
        return False
    return all(inputs_only(x) for x in t.args)


class Held:
    """Data given to a write, with the state it was made in."""

    def __init__(self, it, st, v):
        self.it, self.st, self.v = it, st, v


def history(lab, name, steps, world=CaseWorld, check=None, read=True, check_read=None, compare=None, **opts):
    """Outcomes of writing data under names one after the other and reading
    them all back, None if too big.

    steps are (name, spec); what was written last under a name has to be read.
    check(it, st, v, held) may raise Diff about what is stored.
    """
    st, o, ll = lab.options(**opts)
    out = []
    # Paths: (state, the low level file, {name: what was written})
    now = [(st, ll, {})]
    for at, spec in steps:
        nxt = []
        for s0, low, have in now:
            if callable(at):
                r = at(lab, s0, low, o)
                if r is None:
                    return None
                nxt.append(r + (have,))
                continue
            held = {}

            def args(it, s):
                held["d"] = Held(it, None, mk(it.prop, it, s, spec))
                held["d"].st = s.fork()
                s.p["ev"] = ()
                return [low, node("/"), C(at), held["d"].v]
            r = lab.run("writing %s" % name, "write", s0.fork(), args, world)
            if r is None:
                return None
            it, p, rets, raises = r
            out += [Outcome("raise", s, "writing", "%s" % e.name, e.site) for s, e in raises]
            for s, e in raises if getattr(check, "raising", False) else ():
                try:
                    check(it, s, at, held["d"])
                except Diff as x:
                    out.append(Outcome("other" if x.sure else "unknown", s, x.where, x.why))
            for s, v in rets:
                s.trace = None
                nxt.append((s, low, dict(have, **{at: held["d"]})))
                if check is not None:
                    try:
                        check(it, s, at, held["d"])
                    except Diff as e:
                        out.append(Outcome("other" if e.sure else "unknown", s, e.where, e.why))
        now = nxt
        if len(now) > 8:
            return None
    if not read:
        return out + [Outcome("same", s) for s, low, have in now]
    for s, low, have in now:
        for at in sorted(have):
            before = s.fork()
            s = s.fork()
            s.p["ev"] = ()
            r = lab.run("reading %s" % name, "read", s, [low, node("/"), C(at)], world)
            if r is None:
                return None
            it2, p2, rets2, raises2 = r
            if check_read is not None:
                for s2 in [x for x, _ in rets2 + raises2]:
                    try:
                        check_read(it2, before, s2)
                    except Diff as e:
                        out.append(Outcome("other" if e.sure else "unknown", s2, e.where, e.why))
            out += [Outcome("raise", s2, "reading", "%s" % e.name, e.site) for s2, e in raises2]
            for s2, v2 in rets2:
                h = have[at]
                try:
                    if compare is not None:
                        compare(h, it2, s2, v2)
                    else:
                        Comparer(h.it, h.st, it2, s2).same(h.v, v2)
                    out.append(Outcome("same", s2))
                except Diff as e:
                    out.append(Outcome("other" if e.sure else "unknown", s2, e.where, e.why))
    return out


def reopened(lab, st, low, o):
    """A step of a history: the file is closed and opened again."""
    r = lab.one("opening again", "lowlevel", st, [node("/"), o])
    return None if r is None else (r[1], r[2])


def then(**kw):
    """A step of a history: what follows is done with these options."""
    def step(lab, st, low, o):
        st2, o2 = lab.options(**kw)[:2]
        x, y = st.heap.get(o.args[0]), st2.heap.get(o2.args[0])
        if x is None or y is None:
            return None
        plain = lambda v: v is None or is_c(v) or (v.tag == "tup" and all(plain(e) for e in v.args))
        st = st.fork()
        st.heap[o.args[0]] = x.with_(data={k: y.data[k] if k in y.data and plain(y.data[k]) else v for k, v in x.data.items()})
        return st, low
    return step


def having(*objects):
    """A step of a history: objects are put into the file.

    They are (path, None or (dtype, shape, elements), {attribute: value of the same form}).
    """
    def step(lab, st, low, o):
        w, ds, at = dict(st.p.get("w", CaseWorld.start)), dict(st.p.get("ds", ())), dict(st.p.get("at", ()))
        for path, data, attrs in objects:
            up = posixpath.dirname(path)
            while up not in w:
                w[up] = "group"
                up = posixpath.dirname(up)
            w[path] = "group" if data is None else "dataset"
            if data is not None:
                ds[path] = data + (tuple(sorted(NOFILTER)),)
            if attrs:
                at[path] = tuple(sorted(attrs.items()))
        st.p.update(w=tuple(sorted(w.items())), ds=tuple(sorted(ds.items(), key=lambda kv: kv[0])), at=tuple(sorted(at.items())))
        return st, low
    return step


def switched(**kw):
    """A step of a history: the file is closed and opened with other options."""
    def step(lab, st, low, o):
        def args(it, s):
            return [lab.mc, it.alloc(s, Obj("dict", data={C(k): (C(v), True) for k, v in kw.items()}))]
        r = lab.one("other options", "options", st, args)
        if r is None:
            return None
        r[1].p["switched"] = True
        return reopened(lab, r[1], low, r[2])
    return step


def round_trip(lab, name, spec, world=CaseWorld, check=None, **opts):
    """Outcomes of writing the data and reading it back, None if too big."""
    return history(lab, name, [("x", spec)], world, check, **opts)


def kinds():
    """Name -> spec, one of each way data is stored in."""
    a = array_cases()
    o = object_cases()
    d = dict_cases()
    out = {"int": I("n"), "str": S("t", 3), "bytes": Y("b", 3), "empty str": C(""), "None": NONE, "float": ty("f", "float"),
           "slice": ty("sl", "slice"), "timedelta": ty("td", "datetime.timedelta")}
    for n, dt in (("structured of the same size (3,)", ("struct", (("x", "float64"), ("b", "int32"), ("c", "S3")))),
                 ("structured of the same names (3,)", ("struct", (("a", "float64"), ("b", "uint32"), ("c", "S3")))),
                 ("array >float64 (3,)", ">float64"), ("array int64 (3,)", "int64")):
        out[n] = array(dt, (3,))
    for k in ("array float64 (3,)", "array int16 (3,)", "array float64 (2, 3)", "array float64 (0,)", "array float64 ()", "array complex128 (3,)",
              "array bool (3,)", "array S3 (3,)", "array U2 (3,)", "structured plain (3,)", "structured str (2, 2)", "structured named (3,)",
              "matrix float64", "recarray plain (3,)"):
        out[k] = a[k]
    for k in ("object array (3,)", "list", "empty list", "set", "nested", "structured objects (2,)"):
        out[k] = o[k]
    for k in ("dict, keys str", "dict, keys none", "dict, keys mixed", "OrderedDict, keys order", "Counter, keys str", "dict of values"):
        out[k] = d[k]
    out["dict of one key"] = ("dict", [(C("b"), S("q", 2))])
    out["dict of other keys"] = ("dict", [(C("c"), S("q", 2)), (C("keys"), I("r"))])
    return out


def renamed(spec, suffix):
    """The same data of other values."""
    if isinstance(spec, Term):
        if spec.tag in ("s", "y"):
            return T(spec.tag, spec.args[0] + suffix, *spec.args[1:])
        if spec.tag == "typed":
            return typed(spec.args[0].args[0] + suffix if spec.args[0].tag == "sym" else spec.args[0], spec.args[1].args[0])
        if spec.tag in ("rec", "arr", "tup"):
            return T(spec.tag, *[renamed(x, suffix) for x in spec.args])
        return spec
    if isinstance(spec, tuple):
        if spec and spec[0] in ("dt",):
            return spec
        return tuple(renamed(x, suffix) for x in spec)
    if isinstance(spec, list):
        return [renamed(x, suffix) for x in spec]
    return spec


def utf16_cases():
    """Name -> (spec, dtype it's stored as with UTF-16 on), of str by the room their characters need."""
    two = lambda n, k: S(n, k, 2 * k)      # Every character is two UTF-16 units
    mix = lambda n, k: S(n, k, k + 1)
    arr = lambda sh, *el: ("nd", "ndarray", "U%d" % max(slen(e) for e in el), sh, list(el))
    out = {
        "numpy.str_": (("nd", "scalar", "U3", (), [S("a", 3)]), "uint16"),
        "numpy.str_ with one outside the BMP": (("nd", "scalar", "U3", (), [mix("a", 3)]), "uint32"),
        "numpy.str_ all outside the BMP": (("nd", "scalar", "U2", (), [two("a", 2)]), "uint32"),
        "numpy.str_ of one outside the BMP": (("nd", "scalar", "U1", (), [two("a", 1)]), "uint32"),
        "str": (S("a", 3), "uint16"), "str of one": (S("a", 1), "uint16"),
        "str with one outside the BMP": (mix("a", 3), "uint32"), "str of one outside the BMP": (two("a", 1), "uint32"),
        "array": (arr((2,), S("a", 3), S("b", 2)), "uint16"),
        "array 2d": (arr((2, 2), S("a", 2), S("b", 1), S("c", 2), S("d", 2)), "uint16"),
        "array 0d": (arr((), S("a", 2)), "uint16"),
        "array 0d outside the BMP": (arr((), two("a", 2)), "uint32"),
        "array, longest outside the BMP": (arr((2,), mix("a", 3), S("b", 2)), "uint32"),
        "array, short outside the BMP": (arr((2,), S("a", 3), two("b", 1)), None),
        "array 2d outside the BMP": (arr((2, 2), S("a", 2), S("b", 1), two("c", 2), S("d", 2)), "uint32"),
        "array of one outside the BMP": (arr((1,), two("a", 2)), "uint32"),
        "chararray": (("nd", "chararray", "U2", (2,), [S("a", 2), S("b", 1)]), "uint16"),
        "chararray outside the BMP": (("nd", "chararray", "U2", (2,), [two("a", 2), S("b", 1)]), "uint32"),
        "transposed array": (("view", "transposed", arr((2, 2), S("a", 2), S("b", 1), S("c", 2), S("d", 2))), "uint16"),
        "strided array": (("view", "strided", arr((3,), S("a", 2), S("b", 1), S("c", 2))), "uint16"),
        "big endian array": (("nd", "ndarray", ">U2", (2,), [S("a", 2), S("b", 1)]), "uint16"),
        "big endian array outside the BMP": (("nd", "ndarray", ">U2", (2,), [two("a", 2), S("b", 1)]), "uint32"),
        "dict of str": (("dict", [(C("a"), S("x", 2)), (C("b"), mix("y", 2))]), None),
        "list of str": (("list", [S("x", 2), mix("y", 2), two("z", 1)]), None),
    }
    return out


def surrogate_cases():
    """Name -> spec, of str that have surrogates."""
    return {"str": S("a", 3), "numpy.str_": ("nd", "scalar", "U3", (), [S("a", 3)]), "array": array("U2", (3,)), "array 2d": array("U2", (2, 2)),
            "array 0d": array("U2", ()), "big endian array": array(">U2", (2,)), "list of str": ("list", [S("x", 2)]), "value of a dict": ("dict", [(C("a"), S("x", 2))])}


class SurrogateWorld(CaseWorld):
    surrogates = True


class NonAsciiWorld(CaseWorld):
    ascii = False


class BigIntWorld(CaseWorld):
    int_fits = False


class NamedZoneWorld(CaseWorld):
    tz_named = ZONE


class EmptyZoneWorld(CaseWorld):
    """Time zones have an empty name."""
    tz_named = C("")
