"""A model of numpy arrays and of what h5py stores for the interpreter.

An array or numpy scalar is T("nd", container, dtype, shape, buffer, map):
dtype is the spec below, shape a tuple of int, buffer the number of the buffer
it's a view of, map the slot of the buffer of each of its elements in C order.
Buffers are part of the state (st.p["buf"]), their elements are terms saying
where a value comes from, so that rearranging and converting are followed
exactly while the values stay unknown.

dtype specs: "float64", ..., "S5", "U3", with a leading ">" when big endian,
"object", "ref" (object references), "vlenstr", "vlenS1", ("struct", ((name, spec), ...)), ("sub", spec, shape).
"""

import builtins
import collections
import datetime
import fractions
import itertools
import re

from .h5world import *

NUM = {"bool": 1, "uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "int8": 1, "int16": 2,
       "int32": 4, "int64": 8, "float16": 2, "float32": 4, "float64": 8, "float128": 16,
       "complex64": 8, "complex128": 16, "complex256": 32}
SHORT = {"?": "bool", "b": "int8", "B": "uint8", "h": "int16", "H": "uint16", "i": "int32", "I": "uint32",
         "l": "int64", "L": "uint64", "q": "int64", "Q": "uint64", "e": "float16", "f": "float32", "d": "float64",
         "F": "complex64", "D": "complex128", "O": "object", "b1": "bool", "u1": "uint8", "u2": "uint16", "u4": "uint32",
         "u8": "uint64", "i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64", "f2": "float16", "f4": "float32",
         "f8": "float64", "c8": "complex64", "c16": "complex128", "float": "float64", "int": "int64", "complex": "complex128",
         "single": "float32", "double": "float64", "uint": "uint64", "bytes": "S0", "str": "U0", "bool_": "bool"}
CHAR = {"bool": "?", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "l",
        "uint64": "L", "float16": "e", "float32": "f", "float64": "d", "complex64": "F", "complex128": "D", "object": "O"}
CODE = {"bool": "|b1", "int8": "|i1", "uint8": "|u1"}
CODE.update({k: "<" + k[0] + str(v) for k, v in NUM.items() if v > 1})
CODE.update(uint16="<u2", uint32="<u4", uint64="<u8")
ARRAYS = {"ndarray": "numpy.ndarray", "matrix": "numpy.matrix", "recarray": "numpy.recarray", "chararray": "numpy.chararray"}
CONT = {v: k for k, v in ARRAYS.items()}
CONT["numpy.char.chararray"] = "chararray"
ARRAY_ATTRS = {"shape", "dtype", "T", "size", "ndim", "nbytes", "itemsize", "flat", "item", "tobytes", "view", "astype", "reshape", "ravel"}

ARRAY_ONLY = {"dtype", "shape", "size", "ndim", "nbytes", "itemsize", "flat", "T"}


def isarr(t):
    return t.tag == "nd"


# ------------------------------------------------------------------ dtypes

def nat(d):
    """The dtype in native byte order, which is taken to be little endian."""
    if isinstance(d, tuple):
        if d[0] == "struct":
            return ("struct", tuple((n, nat(f)) for n, f in d[1]))
        return ("sub", nat(d[1]), d[2])
    return d[1:] if d[0] == ">" else d


def big(d):
    return isinstance(d, str) and d[0] == ">"


def ordered(d, o):
    """The dtype with another byte order."""
    if isinstance(d, tuple):
        if d[0] == "struct":
            return ("struct", tuple((n, ordered(f, o)) for n, f in d[1]))
        return ("sub", ordered(d[1], o), d[2])
    if o in ("|", "I"):
        return d
    b = {">": True, "B": True, "<": False, "L": False, "=": False, "N": False, "S": not big(d)}[o]
    d = nat(d)
    return ">" + d if b and (kind(d) == "U" or kind(d) in "uifc" and NUM[d] > 1) else d


def kind(d):
    if isinstance(d, tuple):
        return "V" if d[0] == "struct" else kind(d[1])
    if d[0] == ">":
        d = d[1:]
    if d[0] == "S" and d[1:].isdigit():
        return "S"
    if d[0] == "U" and d[1:].isdigit():
        return "U"
    if d in ("object", "ref", "vlenstr", "vlenS1"):
        return "O"
    if d.startswith("uint"):
        return "u"
    if d.startswith("void"):
        return "V"
    return d[0]


def itemsize(d):
    if isinstance(d, tuple):
        if d[0] == "struct":
            return sum(itemsize(x) for n, x in d[1])
        return itemsize(d[1]) * prod(d[2])
    k = kind(d)
    d = nat(d)
    if k == "S":
        return int(d[1:])
    if k == "U":
        return 4 * int(d[1:])
    if k == "O":
        return 8
    return NUM[d] if d in NUM else int(d[4:])


def dtype_name(d):
    k = kind(d)
    if isinstance(d, tuple):
        return "void%d" % (8 * itemsize(d)) if itemsize(d) else "void"
    if k == "V":
        return "void%d" % (8 * itemsize(d))
    if k == "S":
        return "bytes%d" % (8 * itemsize(d)) if itemsize(d) else "bytes"
    if k == "U":
        return "str%d" % (8 * itemsize(d)) if itemsize(d) else "str"
    return "object" if k == "O" else nat(d)


def type_name(d):
    k = kind(d)
    if k == "V":
        return "numpy.void"
    if k == "S":
        return "numpy.bytes_"
    if k == "U":
        return "numpy.str_"
    if k == "O":
        return "numpy.object_"
    return "numpy.bool_" if d == "bool" else "numpy." + nat(d)


def code(d):
    k = kind(d)
    if big(d):
        return code(d[1:]).replace("<", ">")
    if k == "S":
        return "|S%d" % itemsize(d) if itemsize(d) else "|S0"
    if k == "U":
        return "<U%d" % (itemsize(d) // 4)
    if k == "V":
        return "|V%d" % itemsize(d)
    return "|O" if k == "O" else CODE.get(d, d)


def dtype_str(d):
    if isinstance(d, tuple):
        if d[0] == "sub":
            return "(%r, %r)" % (code(d[1]), d[2])
        out = []
        for n, x in d[1]:
            if isinstance(x, tuple) and x[0] == "sub":
                out.append("(%r, %r, %r)" % (n, code(x[1]), x[2]))
            elif isinstance(x, tuple):
                out.append("(%r, %s)" % (n, dtype_str(x)))
            else:
                out.append("(%r, %r)" % (n, code(x)))
        return "[" + ", ".join(out) + "]"
    return code(d) if kind(d) in "SUV" or big(d) else dtype_name(d)


def has_str(d):
    if isinstance(d, tuple):
        return any(has_str(x) for n, x in d[1]) if d[0] == "struct" else has_str(d[1])
    return kind(d) == "U"


def hasobject(d):
    if isinstance(d, tuple):
        return any(hasobject(x) for n, x in d[1]) if d[0] == "struct" else hasobject(d[1])
    return kind(d) == "O"


def parse_str(s):
    m = re.fullmatch(r"[<>=|]?([SUa])(\d*)", s)
    if m:
        d = {"a": "S"}.get(m.group(1), m.group(1)) + (m.group(2) or "0")
        return ">" + d if s[0] == ">" and d[0] == "U" else d
    m = re.fullmatch(r"\|?V([1-9]\d*)", s)
    if m:
        return "void" + m.group(1)
    b = s[:1]
    s = s.lstrip("<=|>")
    d = s if s in NUM or s == "object" else SHORT.get(s)
    return ordered(d, ">") if b == ">" and d is not None else d


def from_type(n):
    n = n.replace("numpy.", "", 1) if n.startswith("numpy.") else n
    n = n.replace("builtins.", "", 1)
    if n in ("bytes_", "bytes"):
        return "S0"
    if n in ("str_", "str"):
        return "U0"
    if n in ("object_", "object"):
        return "object"
    if n == "bool_":
        return "bool"
    if n in NUM:
        return n
    return SHORT.get(n) if len(n) > 2 else None


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def promote(a, b):
    """dtype numpy uses for both, None when unknown."""
    a, b = nat(a), nat(b)
    if a == b:
        return a
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None
    ka, kb = kind(a), kind(b)
    if "O" in (ka, kb):
        return "object"
    if ka in "SU" and kb in "SU":
        n = max(itemsize(x) if kind(x) == "S" else itemsize(x) // 4 for x in (a, b))
        return ("U" if "U" in (ka, kb) else "S") + str(n)
    if ka in "SU" or kb in "SU" or "V" in (ka, kb):
        return None
    order = "buifc"
    if order.index(ka) > order.index(kb):
        a, b, ka, kb = b, a, kb, ka
    na, nb = NUM[a], NUM[b]
    if ka == "b":
        return b
    if ka == kb:
        return a if na > nb else b
    if ka == "u" and kb == "i":
        return b if nb > na else {1: "int16", 2: "int32", 4: "int64", 8: "float64"}[na]
    if ka in "ui":
        f = {1: 2, 2: 4, 4: 8, 8: 8}[na]
        if kb == "f":
            return "float%d" % (8 * max(f, nb))
        return "complex%d" % (16 * max(4, f, nb // 2))
    return "complex%d" % (16 * max(4, na, nb // 2))


def plain_dtype(d):
    """What the equality of dtypes looks at."""
    if isinstance(d, tuple):
        if d[0] == "struct":
            return ("struct", tuple((n, plain_dtype(f)) for n, f in d[1]))
        return ("sub", plain_dtype(d[1]), d[2])
    return "object" if kind(d) == "O" else d


def stored_dtype(d):
    """The dtype h5py shows for what was stored with another."""
    if isinstance(d, str) and kind(d) == "c":
        return d
    return d


def zero(d):
    if isinstance(d, tuple):
        if d[0] == "struct":
            return T("rec", *[(n, zero(f)) for n, f in d[1]])
        return T("arr", tuple([zero(d[1])] * prod(d[2])))
    k = kind(d)
    return {"b": FALSE, "S": C(b""), "U": C(""), "f": C(0.0), "c": C(0j)}.get(k, C(0))


def byte_value(x):
    if x.tag == "cast":
        return byte_value(x.args[0])
    if x.tag == "by" and is_c(x.args[0]) and isinstance(cval(x.args[0]), bytes):
        return C(cval(x.args[0]).ljust(x.args[2], b"\0")[x.args[1]])
    return x


def mentions_byte(x):
    if x.tag in ("by", "cu", "ch"):
        return x.tag == "by"
    return x.tag == "cast" and mentions_byte(x.args[0])


# -------------------------------------------------------------- elements

def slen(e):
    """Number of characters of a str or bytes element, or None."""
    if is_c(e) and isinstance(cval(e), (str, bytes)):
        return len(cval(e))
    if e.tag in ("s", "y"):
        return e.args[1]
    if e.tag in ("enc", "dec"):
        c, x = e.args
        if e.tag == "enc" and is_c(x) and isinstance(cval(x), str):
            return len(cval(x).encode("UTF-16LE" if c == "UTF-16" else "UTF-32LE" if c == "UTF-32" else c, "replace"))
        n = slen(x)
        if n is None:
            return None
        w = {"UTF-16LE": 2, "UTF-16BE": 2, "UTF-32LE": 4, "UTF-32BE": 4, "UTF-16": 2, "UTF-32": 4}.get(c, 1)
        if e.tag == "enc":
            # A third number of a str is that of its UTF-16 units, a fourth that of its UTF-8 bytes.
            if x.tag == "s" and w == 2 and len(x.args) > 2:
                n = x.args[2]
            if x.tag == "s" and w == 1 and len(x.args) > 3:
                n = x.args[3]
            return n * w
        return n // w
    if e.tag == "grp":
        return len(e.args[0]) * itemsize(e.args[1])
    if e.tag in ("text", "nobom", "cutnulls"):
        return slen(e.args[0])
    if e.tag == "digits":
        return 20
    if e.tag == "bytesof":
        return 4
    return None


def norm_codec(c):
    c = c.upper().replace("_", "-")
    return {"UTF8": "UTF-8", "UTF16": "UTF-16", "UTF32": "UTF-32", "UTF-16-LE": "UTF-16LE", "UTF-16-BE": "UTF-16BE"}.get(c, c)


def cast(e, old, new):
    """Element of another dtype."""
    if isinstance(old, str) and isinstance(new, str):
        old, new = nat(old), nat(new)
    if old == new:
        return e
    ko, kn = kind(old), kind(new)
    if is_c(e) and isinstance(cval(e), (bool, int, float, complex)):
        v = cval(e)
        try:
            if kn == "b":
                return C(bool(v))
            if kn in "ui" and not isinstance(v, complex):
                return C(int(v))
            if kn == "f" and not isinstance(v, complex):
                return C(float(v))
            if kn == "c":
                return C(complex(v))
        except (ValueError, OverflowError):
            pass
    if kn == "c" and ko in "fbui":
        return T("cplx", e, C(0))
    if kn == "O" or ko == "O":
        return e
    if ko in "SU" and kn == ko:
        return e
    if e.tag == "cast" and e.args[2] == new and (kind(new) != "b" and itemsize(e.args[1]) >= itemsize(new) or new == "bool"):
        # Back from a type holding all values.
        if ko == kind(new) or new == "bool" or (ko in "i" and kind(new) == "u" and itemsize(e.args[1]) > itemsize(new)):
            return e.args[0]
    return T("cast", e, new, old)


def real_part(e):
    if e.tag == "cplx":
        return e.args[0]
    if is_c(e) and isinstance(cval(e), (int, float, complex)):
        return C(cval(e).real)
    return T("re", e)


def imag_part(e):
    if e.tag == "cplx":
        return e.args[1]
    if is_c(e) and isinstance(cval(e), (int, float, complex)):
        return C(cval(e).imag)
    return T("im", e)


def cplx(re_, im):
    if re_.tag == "re" and im.tag == "im" and re_.args[0] is im.args[0]:
        return re_.args[0]
    if is_c(re_) and is_c(im) and isinstance(cval(re_), (int, float)) and isinstance(cval(im), (int, float)):
        return C(complex(cval(re_), cval(im)))
    return T("cplx", re_, im)


def swap(e):
    return e.args[0] if e.tag == "sw" else T("sw", e)


def units(e, d, u):
    """The elements of dtype u in one of dtype d (views)."""
    if big(u) or big(d):
        us = units(e, nat(d), nat(u))
        if big(u) == big(d) and (kind(d) == "U" or itemsize(d) == itemsize(u)) or itemsize(u) == 1 and kind(d) == "S":
            return us
        if itemsize(u) in (1, itemsize(d)) or kind(d) in "SU":
            return [swap(x) for x in us] if itemsize(u) > 1 else [T("unit", swap(e), j, len(us), u) for j in range(len(us))]
        return [T("unit", e, j, len(us), u, d) for j in range(len(us))]
    n = itemsize(d) // itemsize(u)
    if d == ("grpS",):
        return None
    if e.tag == "grp" and e.args[1] == u and len(e.args[0]) == n:
        return list(e.args[0])
    if kind(d) == "U" and u == "uint32":
        return [T("ch", e, j, n) for j in range(n)]
    if kind(d) == "S" and itemsize(u) == 1:
        if e.tag == "enc" and e.args[0] == "UTF-8" and u == "uint8":
            pass
        return [T("by", e, j, n) for j in range(n)]
    if kind(d) == "S" and u == "uint16" and e.tag == "enc" and e.args[0].startswith("UTF-16"):
        us = [T("cu", e.args[1], j, n) for j in range(n)]
        return us if e.args[0].endswith("LE") else [swap(x) for x in us]
    if kind(d) == "S" and u == "uint32" and e.tag == "enc" and e.args[0].startswith("UTF-32"):
        us = [T("ch", e.args[1], j, n) for j in range(n)]
        return us if e.args[0].endswith("LE") else [swap(x) for x in us]
    return [T("unit", e, j, n, u) for j in range(n)]


def whole(us, u):
    """The element all units are taken from in order, or None."""
    if us and all(x.tag == us[0].tag and x.tag in ("ch", "by", "cu", "unit") and x.args[0] is us[0].args[0]
                  and x.args[1] == j and x.args[2] == len(us) for j, x in enumerate(us)):
        return us[0].tag, us[0].args[0]
    return None


def uncast(us):
    """Units without a widening conversion of bytes, None if there's none."""
    if us and all(x.tag == "cast" and x.args[2] == "uint8" and kind(x.args[1]) in "ui" for x in us):
        return [x.args[0] for x in us]
    return None


def group(us, u, d):
    """One element of dtype d made of the units (views)."""
    if big(u) or big(d):
        if big(u) != big(d) and kind(d) == "U":
            us = [swap(x) for x in us]
        elif kind(d) == "S" and big(u):
            us = [swap(x) for x in us]
        elif kind(d) != "U":
            return T("grp", tuple(us), u, d)
        u, d = nat(u), nat(d)
    w = whole(us, u)
    if w is not None:
        if w[0] == "ch" and kind(d) == "U" or w[0] == "by" and kind(d) == "S":
            return w[1]
    return T("grp", tuple(us), u)


def decode_units(us, u, codec):
    """str element of a sequence of units."""
    codec = norm_codec(codec)
    order = None
    if big(u):
        u = nat(u)
        us = [swap(x) for x in us]
    plain = list(us)
    if all(x.tag == "sw" for x in us) and us:
        plain = [x.args[0] for x in us]
        order = "BE"
    else:
        order = "LE"
    w = whole(plain, u)
    if codec in ("UTF-32", "UTF-16"):
        # These drop a byte order mark.
        x = decode_units(us, u, codec + "LE")
        return x if x.tag == "text" else T("nobom", x)
    if w is not None:
        if w[0] == "ch" and u == "uint32" and codec == "UTF-32" + order:
            return w[1]
        if w[0] == "cu" and u == "uint16" and codec == "UTF-16" + order:
            return w[1]
        if w[0] == "by" and u == "uint8" and codec == "UTF-8":
            return text_of(w[1], "UTF-8")
    b = uncast(plain)
    if b is not None:
        w = whole(b, "uint8")
        if w is not None and w[0] == "by" and (u == "uint16" and codec == "UTF-16" + order or u == "uint32" and codec == "UTF-32" + order):
            # Only for bytes that are ASCII, which is the one case this is stored for.
            return T("text", w[1])
    return T("decoded", tuple(us), u, codec)


def text_of(e, codec):
    if e.tag == "enc" and norm_codec(e.args[0]) == norm_codec(codec):
        return e.args[1]
    if e.tag == "enc" and e.args[0] == norm_codec(codec) + "LE":
        return T("nobom", e.args[1])
    if is_c(e) and isinstance(cval(e), bytes):
        try:
            return C(cval(e).decode(codec))
        except UnicodeDecodeError:
            pass
    if e.tag == "grp":
        return decode_units(e.args[0], e.args[1], codec)
    return T("dec", norm_codec(codec), e)


def encoded(e, codec):
    codec = norm_codec(codec)
    if e.tag == "dec" and e.args[0] == codec:
        return e.args[1]
    if e.tag == "text" and codec in ("UTF-8", "ASCII"):
        return e.args[0]
    if is_c(e) and isinstance(cval(e), str) and codec not in ("UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"):
        try:
            return C(cval(e).encode(codec))
        except UnicodeEncodeError:
            pass
    return T("enc", codec, e)


# ----------------------------------------------------------------- the world

STDLIB = {"builtins": builtins, "collections": collections, "datetime": datetime, "fractions": fractions}
NPTYPES = {"numpy." + k for k in NUM if k != "bool"} | {"numpy.bool_", "numpy.bytes_", "numpy.str_", "numpy.object_", "numpy.void"}
DSET_ATTRS = ("compression", "compression_opts", "shuffle", "fletcher32", "chunks", "maxshape", "scaleoffset")
NOFILTER = (("chunks", NONE), ("compression", NONE), ("compression_opts", NONE), ("fletcher32", FALSE), ("shuffle", FALSE))


def stdlib(t):
    """The class a term names, of modules of the standard library."""
    if t.tag == "ext" and t.args[0].split(".")[0] in STDLIB:
        m, _, n = t.args[0].rpartition(".")
        return getattr(STDLIB[m.split(".")[0]], n, None)
    return None


class Unknown(Exception):
    """An operation the model doesn't know."""


class Raises(Exception):
    """An operation that raises an exception."""


def broadcast_into(shape, src):
    """Position of the value for each element of a dataset as h5py assigns it to all of it, None if it doesn't fit."""
    left = list(src)
    e = []
    for c in reversed(shape):
        t = left.pop() if left else 1
        if t != 1 and t != c:
            return None
        e.insert(0, t)
    if any(x > 1 for x in left):
        return None
    if 0 in left:
        return [None] * prod(shape)
    out = []
    for i in range(prod(shape)):
        ix = []
        for c in reversed(shape):
            ix.insert(0, i % c)
            i //= c
        k = 0
        for j, t in zip(ix, e):
            k = k * t + (j if t != 1 else 0)
        out.append(k)
    return out


class NumWorld(H5World):
    cap = 64
    max_steps = 600000
    int_fits = True     # Python ints fit into 64 bits
    ascii = True        # bytes are ASCII, str encode to one UTF-16 unit per character
    surrogates = False  # str have surrogates
    rand = (0x1001, 0x1002, 0x1003, 0x1004)
    ds = ()             # (path, (dtype, shape, elements, filters))
    at = ()             # (path, ((name, (dtype, shape, elements)), ...))

    def may_raise(self, it, st, f, n):
        return False

    # -- arrays ----------------------------------------------------------
    def bufs(self, st):
        return dict(st.p.get("buf", ()))

    def newbuf(self, st, elems, alias=None):
        b = st.p.get("buf", ())
        k = len(b)
        st.p["buf"] = b + ((k, tuple(elems)),)
        if alias is not None:
            st.p["alias"] = st.p.get("alias", ()) + ((k, alias),)
        return k

    def new(self, st, d, shape, elems, container="ndarray", alias=None):
        shape = tuple(shape)
        elems = tuple(elems)
        assert len(elems) == prod(shape), (shape, elems)
        if container == "scalar":
            return T("nd", "scalar", nat(d), (), None, elems)
        k = self.newbuf(st, elems, alias)
        return T("nd", container, d, shape, k, tuple(range(len(elems))))

    def scalar(self, st, d, e):
        return e if kind(d) == "O" else T("nd", "scalar", nat(d), (), None, (e,))

    def now(self, st, t):
        """The array with the shape set in place."""
        return dict(st.p.get("shp", ())).get(t, t)

    def apart(self, st, v, t):
        """A new view that isn't mistaken for an array reshaped in place."""
        if isarr(v) and v is not t and v in dict(st.p.get("shp", ())):
            c, d, s, buf, mp = v.args
            return T("nd", c, d, s, buf, tuple(m if isinstance(m, tuple) else (m,) for m in mp))
        return v

    def views(self, t, r):
        return r and [(x, self.apart(x, v, t)) for x, v in r]

    def entry(self, st, buf, m):
        if buf is None:
            return m
        if isinstance(m, tuple):
            e = self.bufs(st)[buf][m[0]]
            for f in m[1:]:
                e = self.field(e, f)
            return e
        return self.bufs(st)[buf][m]

    def field(self, e, f):
        if isinstance(f, int):
            return e.args[0][f] if e.tag == "arr" else T("nth", e, f)
        if e.tag == "rec":
            for n, x in e.args:
                if n == f:
                    return x
        return T("field", e, f)

    def elems(self, st, t):
        t = self.now(st, t)
        c, d, s, buf, mp = t.args
        if buf is None:
            return list(mp)
        b = self.bufs(st)[buf]
        out = []
        for m in mp:
            if isinstance(m, tuple):
                e = b[m[0]]
                for f in m[1:]:
                    e = self.field(e, f)
                out.append(e)
            else:
                out.append(b[m])
        return out

    def write(self, st, t, pos, e):
        """Sets elements of an array."""
        c, d, s, buf, mp = self.now(st, t).args
        if buf is None:
            raise Unknown("an immutable scalar is changed")
        bs = list(self.bufs(st)[buf])
        for p, x in zip(pos, e):
            m = mp[p]
            if isinstance(m, tuple) and len(m) == 1:
                bs[m[0]] = x
            elif isinstance(m, tuple):
                bs[m[0]] = self.set_field(bs[m[0]], m[1:], x, d)
            else:
                bs[m] = x
        st.p["buf"] = tuple((k, tuple(bs) if k == buf else v) for k, v in st.p["buf"])
        self.ev(st, "buffer", self.root(st, buf))

    def set_field(self, e, path, x, d):
        if isinstance(path[0], int) and e.tag == "arr":
            return T("arr", tuple(x if i == path[0] else v for i, v in enumerate(e.args[0])))
        if e.tag == "rec":
            return T("rec", *[(n, (self.set_field(v, path[1:], x, d) if len(path) > 1 else x) if n == path[0] else v) for n, v in e.args])
        return T("setfield", e, path, x)

    def root(self, st, buf):
        al = dict(st.p.get("alias", ()))
        while buf in al:
            buf = al[buf]
        return buf

    def view(self, t, container=None, dtype=None, shape=None, mp=None):
        c, d, s, buf, m = t.args
        return T("nd", container or c, dtype if dtype is not None else d, s if shape is None else tuple(shape), buf, m if mp is None else tuple(mp))

    def asarr(self, st, it, x, d=None, copy=False):
        """Array term of a value, None when unknown."""
        x = self.now(st, x) if isarr(x) else x
        if isarr(x):
            if x.args[0] == "scalar":
                x = self.new(st, x.args[1], (), self.elems(st, x))
            if d is not None and d != x.args[1] or copy:
                return self.astype(st, x, d if d is not None else x.args[1])
            return x
        if x.tag == "c" or x.tag in ("s", "y", "typed", "h5ref") or x.tag not in ("tup", "obj"):
            td, e = self.py_dtype(st, it, x)
            if td is None:
                return None
            a = self.new(st, td, (), (e,))
            return a if d is None or d == td else self.astype(st, a, d)
        ex = it.exact_items(st, x)
        o = it.obj(st, x)
        if ex is None or o is not None and o.kind not in ("list",):
            td = "object"
            return self.new(st, td, (), (x,)) if o is not None and o.kind in ("dict", "set") else None
        ex = [e[0] if isinstance(e, tuple) else e for e in ex]
        if d is not None and kind(d) == "O":
            return self.new(st, d, (len(ex),), ex)
        if not ex:
            return self.new(st, d or "float64", (0,), ())
        if isinstance(d, tuple) and d[0] == "struct" and all(e.tag == "tup" and len(e.args) == len(d[1]) for e in ex):
            return self.new(st, d, (len(ex),), [T("rec", *[(n, v) for (n, f), v in zip(d[1], e.args)]) for e in ex])
        subs = [self.asarr(st, it, e) for e in ex]
        if any(y is None or y.args[2] != subs[0].args[2] for y in subs):
            return None
        td = subs[0].args[1]
        for y in subs[1:]:
            td = promote(td, y.args[1])
            if td is None:
                return None
        el = [cast(e, y.args[1], td) for y in subs for e in self.elems(st, y)]
        a = self.new(st, td, (len(ex),) + subs[0].args[2], el)
        return a if d is None or d == td else self.astype(st, a, d)

    def py_dtype(self, st, it, x):
        """(dtype, element) numpy gives a Python value."""
        if x.tag == "c":
            v = cval(x)
            if isinstance(v, bool):
                return "bool", x
            if isinstance(v, int):
                return ("int64" if -2 ** 63 <= v < 2 ** 63 else "uint64" if 0 <= v < 2 ** 64 else "object"), x
            if isinstance(v, float):
                return "float64", x
            if isinstance(v, complex):
                return "complex128", x
            if isinstance(v, str):
                return "U%d" % len(v), x
            if isinstance(v, bytes):
                return "S%d" % len(v), x
            return ("object", x) if v is None or v is Ellipsis else (None, x)
        tp = self.pytype(it, st, x)
        if tp is None:
            if x.tag in ("top", "phi", "call", "attr", "item", "sym"):
                return None, x
            return "object", x
        n = tp.args[0] if tp.tag == "ext" else ""
        r = {"builtins.bool": "bool", "builtins.int": "int64", "builtins.float": "float64", "builtins.complex": "complex128"}.get(n)
        if r:
            return r, x
        if n in ("builtins.str", "builtins.bytes") and slen(x) is not None:
            return ("U" if n.endswith("str") else "S") + "%d" % slen(x), x
        if n in ("builtins.str", "builtins.bytes", "builtins.bytearray"):
            return None, x
        return "object", x

    def pytype(self, it, st, x):
        """Type of a value as a term."""
        from sa import models
        return models.type_of(it, st, x)

    def kept_order(self, st, t, mp):
        """An array of a copy with its elements in the order of memory of the source."""
        c, d, s, buf, new = t.args
        if buf is None or len(s) < 2 or not new or any(isinstance(m, tuple) for m in mp):
            return t
        steps, k = [], 1
        for i in range(len(s) - 1, -1, -1):
            steps.insert(0, abs(mp[k] - mp[0]) if s[i] > 1 else 0)
            k *= s[i]
        order = sorted(range(len(s)), key=lambda i: -steps[i] if steps[i] else -steps[i - 1] if i else 0)
        if order == list(range(len(s))):
            return t
        stride, k = [0] * len(s), 1
        for i in reversed(order):
            stride[i] = k
            k *= s[i]
        out = [sum(a * b for a, b in zip(co, stride)) for co in itertools.product(*[range(k) for k in s])]
        es = self.bufs(st)[buf]
        laid = [None] * len(es)
        for e, o in zip(es, out):
            laid[o] = e
        st.p["buf"] = tuple((k, tuple(laid) if k == buf else v) for k, v in st.p["buf"])
        return T("nd", c, d, s, buf, tuple(out))

    def astype(self, st, x, d, order="K"):
        c, old, s, buf, mp = self.now(st, x).args
        if d == "S0" and kind(old) in "SU":
            d = "S%d" % (itemsize(old) if kind(old) == "S" else itemsize(old) // 4)
        if d == "U0" and kind(old) in "SU":
            d = "U%d" % (itemsize(old) if kind(old) == "S" else itemsize(old) // 4)
        if isinstance(d, tuple) and d[0] == "struct":
            if isinstance(old, tuple) and old[0] == "struct" and [n for n, f in old[1]] == [n for n, f in d[1]]:
                el = self.elems(st, x)
            elif prod(s) == 0:
                el = []
            else:
                el = [T("rec", *[(n, T("cast", e, repr(f), repr(old))) for n, f in d[1]]) for e in self.elems(st, x)]
        else:
            el = [cast(e, old, d) if not isinstance(old, tuple) and not isinstance(d, tuple) else T("cast", e, d, old) for e in self.elems(st, x)]
        v = self.new(st, d, s, el, c)
        return self.kept_order(st, v, mp) if order == "K" else v

    # -- indices ---------------------------------------------------------
    def index(self, it, st, t, idx):
        """(shape, positions, full) of an index, None for others."""
        shape = t.args[2]
        ix = list(idx.args) if idx.tag == "tup" else [idx]
        ell = [i for i, x in enumerate(ix) if x is ext("builtins.Ellipsis") or is_c(x) and cval(x) is Ellipsis]
        if len(ell) > 1:
            return None
        if any(x is NONE for x in ix):
            return None
        if ell:
            i = ell[0]
            fill = len(shape) - (len(ix) - 1)
            if fill < 0:
                return None
            ix = ix[:i] + [T("slice", NONE, NONE, NONE)] * fill + ix[i + 1:]
        if len(ix) > len(shape):
            return "IndexError"
        ints = 0
        axes, keep = [], []
        for k, n in enumerate(shape):
            x = ix[k] if k < len(ix) else T("slice", NONE, NONE, NONE)
            if isarr(x):
                e = self.elems(st, x)
                if x.args[2] == () and is_c(e[0]) and isinstance(cval(e[0]), int):
                    x = e[0]
                else:
                    return None
            if x.tag == "slice":
                v = [pyval_or(z, NotConst) for z in x.args]
                if NotConst in v:
                    return None
                r = list(range(n))[slice(*v)]
                axes.append(r)
                keep.append(len(r))
            elif is_c(x) and isinstance(cval(x), int) and not isinstance(cval(x), bool):
                v = cval(x)
                if not -n <= v < n:
                    return "IndexError"
                axes.append([v % n])
                ints += 1
            else:
                return None
        pos = []
        for co in itertools.product(*axes):
            p = 0
            for c, n in zip(co, shape):
                p = p * n + c
            pos.append(p)
        return tuple(keep), pos, not ell and ints == len(shape)

    def getitem(self, it, st, base, idx, n):
        if isarr(base):
            t = self.now(st, base)
            c, d, s, buf, mp = t.args
            if is_c(idx) and isinstance(cval(idx), str):
                if not isinstance(d, tuple) or d[0] != "struct":
                    it.throw_named(st, "IndexError", n, it.frames[-1], explicit=False)
                    return []
                fd = dict(d[1]).get(cval(idx))
                if fd is None:
                    it.throw_named(st, "ValueError", n, it.frames[-1], explicit=False)
                    return []
                return [(st, self.field_view(st, t, cval(idx), fd))]
            r = self.index(it, st, t, idx)
            if r == "IndexError":
                it.throw_named(st, "IndexError", n, it.frames[-1], explicit=False)
                return []
            if r is None:
                return [(st, T("item", base, idx))]
            shape, pos, full = r
            if full or c == "scalar" and shape == () and not (idx is ext("builtins.Ellipsis") or is_c(idx) and cval(idx) is Ellipsis):
                e = self.elems(st, t)[pos[0]]
                if isinstance(d, tuple) and d[0] == "struct" and buf is not None:
                    return [(st, T("nd", "scalar", d, (), buf, (mp[pos[0]],)))]
                return [(st, self.scalar(st, d, e))]
            if c == "scalar":
                return [(st, self.new(st, d, (), self.elems(st, t)))]
            if c == "matrix" and len(shape) < 2:
                shape = (1,) + shape if shape else (1, 1)
            return [(st, T("nd", c, d, shape, buf, tuple(mp[p] for p in pos)))]
        if base.tag == "dt" and isinstance(base.args[0], tuple) and base.args[0][0] == "struct":
            k = pyval_or(idx)
            for i, (nm, f) in enumerate(base.args[0][1]):
                if k == nm or k == i and not isinstance(k, str):
                    return [(st, T("dt", f))]
        if base.tag == "h5" and idx.tag == "h5ref" and base.args[1] == "group":
            p = idx.args[0]
            k = self.tree(st).get(p)
            if k is None:
                it.throw_named(st, "ValueError", n, it.frames[-1], explicit=False)
                return []
            self.ev(st, "get", p)
            return [(st, node(p, k))]
        if base.tag == "h5" and base.args[1] == "dataset":
            v = self.load(st, base.args[0], idx)
            if v is not None:
                self.ev(st, "load", base.args[0])
                return [(st, v)]
        if base.tag == "h5attrs":
            k = self.attr_name(st, it, idx)
            if k is None:
                return None
            at = dict(self.attr_table(st, base.args[0]))
            if k not in at:
                return self.missing(it, st, idx, n)
            return [(st, self.attr_value(st, at[k]))]
        return H5World.getitem(self, it, st, base, idx, n)

    def field_view(self, st, t, name, fd):
        c, d, s, buf, mp = t.args
        c2 = "ndarray" if c == "recarray" else c
        if isinstance(fd, tuple) and fd[0] == "sub":
            k = prod(fd[2])
            if buf is None:
                return self.new(st, fd[1], s + fd[2], [self.field(self.field(e, name), j) for e in mp for j in range(k)])
            m2 = tuple((m if isinstance(m, tuple) else (m,)) + (name, j) for m in mp for j in range(k))
            return T("nd", "ndarray" if c in ("recarray", "scalar") else c, fd[1], s + fd[2], buf, m2)
        if buf is None:
            return self.scalar(st, fd, self.field(mp[0], name))
        m2 = tuple((m if isinstance(m, tuple) else (m,)) + (name,) for m in mp)
        if c == "scalar":
            e = self.entry(st, buf, m2[0])
            return self.scalar(st, fd, e) if not isinstance(fd, tuple) else T("nd", "scalar", fd, (), buf, m2)
        return T("nd", c2, fd, s, buf, m2)

    def setitem(self, it, st, base, idx, val, n):
        if isarr(base):
            try:
                t = self.now(st, base)
                c, d, s, buf, mp = t.args
                if is_c(idx) and isinstance(cval(idx), str):
                    fd = dict(d[1]).get(cval(idx)) if isinstance(d, tuple) else None
                    if fd is None:
                        it.throw_named(st, "ValueError", n, it.frames[-1], explicit=False)
                        return []
                    return self.setitem(it, st, self.field_view(st, t, cval(idx), fd), ext("builtins.Ellipsis"), val, n)
                r = self.index(it, st, t, idx)
                if r == "IndexError":
                    it.throw_named(st, "IndexError", n, it.frames[-1], explicit=False)
                    return []
                if r is None:
                    self.write(st, t, range(len(mp)), [T("top")] * len(mp))
                    return [st]
                shape, pos, full = r
                if full and kind(d) == "O":
                    self.write(st, t, pos, [val])
                    return [st]
                if kind(d) == "O" and not isarr(val):
                    ex = it.exact_items(st, val) if val.tag in ("tup", "obj") and not (it.obj(st, val) is not None and it.obj(st, val).kind != "list") else None
                    if ex is not None and len(shape) == 1:
                        ex = [x[0] if isinstance(x, tuple) else x for x in ex]
                        if len(ex) == len(pos):
                            self.write(st, t, pos, ex)
                            return [st]
                        if len(ex) != 1:
                            it.throw_named(st, "ValueError", n, it.frames[-1], explicit=False)
                            return []
                        self.write(st, t, pos, ex * len(pos))
                        return [st]
                    self.write(st, t, pos, [val if ex is None else T("top")] * len(pos))
                    return [st]
                a = self.asarr(st, it, val)
                if a is None:
                    self.write(st, t, pos, [T("top")] * len(pos))
                    return [st]
                el = self.elems(st, a)
                if isinstance(d, tuple) or isinstance(a.args[1], tuple):
                    conv = lambda e: e if a.args[1] == d else T("cast", e, repr(d), repr(a.args[1]))
                else:
                    conv = lambda e: cast(e, a.args[1], d)
                el = [conv(e) for e in el]
                if a.args[2] == shape or len(el) == len(pos) and [x for x in a.args[2] if x != 1] == [x for x in shape if x != 1]:
                    self.write(st, t, pos, el)
                elif len(el) == 1:
                    self.write(st, t, pos, el * len(pos))
                else:
                    self.write(st, t, pos, [T("top")] * len(pos))
            except Unknown:
                it.throw_named(st, "TypeError", n, it.frames[-1], explicit=False)
                return []
            return [st]
        if base.tag == "h5attrs":
            k = self.attr_name(st, it, idx)
            if k is not None:
                return self.attr_create(it, st, base.args[0], k, val, None, n)
        if base.tag == "h5" and base.args[1] == "dataset" and base.args[0] in dict(st.p.get("ds", self.ds)):
            p = base.args[0]
            d, s, el, fl = dict(st.p.get("ds", self.ds))[p]
            a = self.asarr(st, it, val)
            whole_ = idx is ext("builtins.Ellipsis") or is_c(idx) and cval(idx) is Ellipsis or idx.tag == "tup" and not idx.args or idx.tag == "slice" and all(x is NONE for x in idx.args)
            self.ev(st, "store", p, idx, T("nd?", a.args[1], a.args[2]) if a is not None else val)
            if a is not None and whole_ and a.args[2] == s:
                self.set_ds(st, p, (d, s, tuple(x if a.args[1] == d else T("cast", x, repr(d), repr(a.args[1])) for x in self.elems(st, a)), fl))
            elif a is not None and whole_ and isinstance(d, str) and d != "unknown" and s is not None:
                m = broadcast_into(s, a.args[2])
                if m is None:
                    it.throw_named(st, "TypeError", n, it.frames[-1], explicit=False)
                    return []
                es = self.elems(st, a)
                self.set_ds(st, p, (d, s, tuple((es[i] if a.args[1] == d else T("cast", es[i], repr(d), repr(a.args[1]))) if i is not None else T("top") for i in m), fl))
            else:
                self.set_ds(st, p, (d, s, tuple(T("top") for x in el), fl))
            return [st]
        return H5World.setitem(self, it, st, base, idx, val, n)

    def setattr(self, it, st, base, name, val, n):
        if isarr(base):
            t = self.now(st, base)
            if name == "shape":
                s = self.shape_arg(it, st, [val], prod(t.args[2]))
                if s is None:
                    return None
                if s == "ValueError":
                    it.throw_named(st, "ValueError", n, it.frames[-1], explicit=False)
                    return []
                if t.args[0] == "scalar":
                    if s != ():
                        it.throw_named(st, "AttributeError", n, it.frames[-1], explicit=False)
                        return []
                    return [st]
                d = dict(st.p.get("shp", ()))
                d[base] = self.view(t, shape=s)
                st.p["shp"] = tuple(d.items())
                self.ev(st, "reshaped", base)
                return [st]
            if name in ("real", "imag") and kind(t.args[1]) == "c":
                a = self.asarr(st, it, val)
                if a is None:
                    return None
                el = self.elems(st, a)
                mine = self.elems(st, t)
                if len(el) == 1:
                    el = el * len(mine)
                if len(el) == len(mine):
                    if t.args[0] == "scalar":
                        it.throw_named(st, "AttributeError", n, it.frames[-1], explicit=False)
                        return []
                    self.write(st, t, range(len(mine)), [cplx(real_part(m), e) if name == "imag" else cplx(e, imag_part(m)) for m, e in zip(mine, el)])
                    return [st]
        return None

    def shape_arg(self, it, st, args, size):
        """Shape given to reshape, "ValueError" when it doesn't fit."""
        if len(args) == 1:
            v = self.ints(it, st, args[0])
        else:
            v = [pyval_or(x) for x in args]
        if v is None or any(not isinstance(x, int) for x in v):
            return None
        v = list(v)
        if v.count(-1) == 1:
            k = prod([x for x in v if x != -1])
            if not k or size % k:
                return "ValueError" if k else None
            v[v.index(-1)] = size // k
        if prod(v) != size:
            return "ValueError"
        return tuple(v)

    def ints(self, it, st, x):
        """Ints of a shape like value, None when unknown."""
        if is_c(x) and isinstance(cval(x), int):
            return [cval(x)]
        if isarr(x):
            ex = self.elems(st, x)
        else:
            ex = it.exact_items(st, x)
        if ex is None:
            return None
        out = []
        for e in ex:
            e = e[0] if isinstance(e, tuple) else e
            if isarr(e) and e.args[2] == ():
                e = self.elems(st, e)[0]
            if not is_c(e) or not isinstance(cval(e), (int, float)) or cval(e) != int(cval(e)):
                return None
            out.append(int(cval(e)))
        return out

    # -- attributes of the file -------------------------------------------
    def attr_table(self, st, path):
        return dict(st.p.get("at", self.at)).get(path, ())

    def attr_name(self, st, it, idx):
        v = pyval_or(idx)
        if isarr(idx):
            e = self.elems(st, idx)
            v = pyval_or(e[0]) if len(e) == 1 else None
        if isinstance(v, bytes):
            v = v.decode("utf-8", "replace")
        return v if isinstance(v, str) else None

    def set_attrs(self, st, path, items):
        d = dict(st.p.get("at", self.at))
        if items:
            d[path] = tuple(sorted(items.items()))
        else:
            d.pop(path, None)
        st.p["at"] = tuple(sorted(d.items()))

    def attr_value(self, st, v):
        """What reading an attribute gives."""
        d, s, el = v
        if d is None:
            return el
        if s == ():
            if d == "vlenstr":
                return el[0]
            if isinstance(d, str) and d == "vlenbytes":
                return text_of(el[0], "UTF-8")
            return self.scalar(st, d, el[0])
        return self.new(st, "object" if d in ("vlenstr", "vlenS1") else d, s, el)

    def stored(self, it, st, val, d=None):
        """(dtype, shape, elements) h5py stores for a value."""
        if d is None and not isarr(val):
            tp = self.pytype(it, st, val)
            if tp is ext("builtins.str"):
                return "vlenstr", (), (val,)
            if tp is ext("builtins.bytes"):
                return "vlenstr", (), (text_of(val, "UTF-8"),)
        if d == "vlenstr" and not isarr(val):
            ex = it.exact_items(st, val) if val.tag in ("obj", "tup") else None
            if ex is not None:
                return d, (len(ex),), tuple(x[0] if isinstance(x, tuple) else x for x in ex)
            return d, (), (val,)
        if isinstance(d, str) and d.startswith("S") and not isarr(val):
            tp = self.pytype(it, st, val)
            if tp is ext("builtins.str"):
                val = encoded(val, "UTF-8")
        a = self.asarr(st, it, val)
        if a is None:
            return None, None, val
        td, s, el = a.args[1], a.args[2], self.elems(st, a)
        if kind(td) == "U" and d is None and s == ():
            return "vlenstr", s, tuple(el)
        if has_str(td) and d is None or td == "object" and d is None:
            return "TypeError"
        if d is not None and d != td:
            if d == "S0" and kind(td) in "SU":
                d = "S%d" % (itemsize(td) if kind(td) == "S" else itemsize(td) // 4)
            el = [cast(e, td, d) if not isinstance(td, tuple) and not isinstance(d, tuple) else e for e in el]
            td = d
        return td, s, tuple(el)

    def attr_create(self, it, st, path, k, val, d, n, shape=None):
        v = self.stored(it, st, val, d)
        if v == "TypeError":
            it.throw_named(st, "TypeError", n, it.frames[-1], explicit=False)
            return []
        if shape is not None and v[0] is not None:
            v = (v[0], tuple(shape), v[2] if prod(shape) == len(v[2]) else (T("top"),) * prod(shape))
        t = dict(self.attr_table(st, path))
        t[k] = v
        self.set_attrs(st, path, t)
        self.ev(st, "setattr", path, k)
        return [st]

    def attr_modify(self, it, st, path, k, val, n):
        t = dict(self.attr_table(st, path))
        if k not in t:
            return self.attr_create(it, st, path, k, val, None, n)
        od, os_, oe = t[k]
        nd_, ns, ne = self.stored_plain(it, st, val)
        if nd_ is None or od is None:
            t[k] = (None, None, T("top"))
        else:
            if os_ != ns and not (prod(os_) == 1 and prod(ns) == 1):
                it.throw_named(st, "TypeError", n, it.frames[-1], explicit=False)
                return []
            if (kind(od) == "O") != (kind(nd_) == "O") or (kind(od) in "SU") != (kind(nd_) in "SU"):
                it.throw_named(st, "TypeError", n, it.frames[-1], explicit=False)
                return []
            # The stored type and shape stay.
            if isinstance(od, tuple) or isinstance(nd_, tuple):
                el = tuple(e if od == nd_ else T("cast", e, repr(od), repr(nd_)) for e in ne)
            elif kind(od) == "S" and kind(nd_) == "S" and itemsize(od) < itemsize(nd_):
                el = tuple(T("cut", e, itemsize(od)) for e in ne)
            else:
                el = tuple(cast(e, nd_, od) for e in ne)
            t[k] = (od, os_, el)
        self.set_attrs(st, path, t)
        self.ev(st, "setattr", path, k)
        return [st]

    def stored_plain(self, it, st, val):
        v = self.stored(it, st, val)
        if v == "TypeError":
            a = self.asarr(st, it, val)
            return a.args[1], a.args[2], tuple(self.elems(st, a))
        return v

    def attrs_call(self, it, st, base, m, a, kw, n, fr):
        path = base.args[0]
        tab = dict(self.attr_table(st, path))
        kd = dict(kw)
        name = a[0] if a else kd.get("name", kd.get("key"))
        if m in ("keys", "__iter__"):
            return self.members(it, st, [C(k) for k in tab], "set", n)
        if m == "items":
            return self.members(it, st, [T("tup", C(k), self.attr_value(st, v)) for k, v in sorted(tab.items())], "list", n)
        if m == "values":
            return self.members(it, st, [self.attr_value(st, v) for k, v in sorted(tab.items())], "list", n)
        if m == "clear":
            for k in tab:
                self.ev(st, "delattr", path, k)
            self.set_attrs(st, path, {})
            return [(st, NONE)]
        if m == "update" and a:
            o = it.obj(st, a[0])
            if o is not None and o.kind == "dict":
                sts = [st]
                for k, (v, must) in o.data.items():
                    nm = self.attr_name(st, it, k)
                    sts = [y for x in sts for y in self.attr_create(it, x, path, nm, v, None, n)]
                return [(x, NONE) for x in sts]
        if name is None:
            return None
        k = self.attr_name(st, it, name)
        if k is None:
            return None
        if m == "get":
            d = a[1] if len(a) > 1 else kd.get("default", NONE)
            return [(st, self.attr_value(st, tab[k]) if k in tab else d)]
        if m in ("pop", "setdefault"):
            if k in tab:
                v = self.attr_value(st, tab[k])
                if m == "pop":
                    del tab[k]
                    self.set_attrs(st, path, tab)
                    self.ev(st, "delattr", path, k)
                return [(st, v)]
            if m == "pop":
                if len(a) > 1:
                    return [(st, a[1])]
                return self.missing(it, st, name, n)
            return [(x, a[1]) for x in self.attr_create(it, st, path, k, a[1], None, n)]
        if m == "__getitem__":
            return self.getitem(it, st, base, name, n)
        if m == "__contains__":
            return [(st, C(k in tab))]
        if m == "__delitem__":
            return [(x, NONE) for x in self.delitem(it, st, base, name, n)]
        v = a[1] if len(a) > 1 else kd.get("value", kd.get("data"))
        if m in ("create", "__setitem__") and v is not None:
            d = None
            dt = a[3] if len(a) > 3 else kd.get("dtype")
            if dt is not None and dt is not NONE:
                d = self.dtype(it, st, dt)
                if d is None:
                    v = T("top")
            sh = a[2] if len(a) > 2 else kd.get("shape", NONE)
            sh = self.ints(it, st, sh) if sh is not NONE else None
            return [(x, NONE) for x in self.attr_create(it, st, path, k, v, d, n, sh)]
        if m == "modify" and v is not None:
            return [(x, NONE) for x in self.attr_modify(it, st, path, k, v, n)]
        return H5World.attrs_call(self, it, st, base, m, a, kw, n, fr)

    def contains(self, it, st, x, coll, n):
        if coll.tag == "h5attrs":
            k = self.attr_name(st, it, x)
            if k is not None:
                return [(st, C(k in dict(self.attr_table(st, coll.args[0]))))]
        if isarr(coll) and coll.args[2] and len(coll.args[2]) == 1:
            el = self.elems(st, coll)
            if all(is_c(e) for e in el) and is_c(x):
                return [(st, C(x in el))]
        return H5World.contains(self, it, st, x, coll, n)

    def delitem(self, it, st, base, idx, n):
        if base.tag == "h5attrs":
            k = self.attr_name(st, it, idx)
            if k is not None:
                t = dict(self.attr_table(st, base.args[0]))
                if k not in t:
                    it.throw_named(st, "KeyError", n, it.frames[-1], explicit=False)
                    return []
                del t[k]
                self.set_attrs(st, base.args[0], t)
                self.ev(st, "delattr", base.args[0], k)
                return [st]
        return H5World.delitem(self, it, st, base, idx, n)

    def remove(self, st, path):
        H5World.remove(self, st, path)
        gone = lambda p: p == path or p.startswith(path.rstrip("/") + "/")
        st.p["at"] = tuple((p, v) for p, v in st.p.get("at", self.at) if not gone(p))
        st.p["ds"] = tuple((p, v) for p, v in st.p.get("ds", self.ds) if not gone(p))

    def elements(self, it, st, v):
        if v.tag == "h5attrs":
            return [C(k) for k in dict(self.attr_table(st, v.args[0]))]
        if isarr(v):
            t = self.now(st, v)
            c, d, s, buf, mp = t.args
            if not s:
                return None
            if len(s) == 1 and c != "matrix":
                if isinstance(d, tuple) and d[0] == "struct" and buf is not None:
                    return [T("nd", "scalar", d, (), buf, (m,)) for m in mp]
                return [self.scalar(st, d, e) for e in self.elems(st, t)]
            k = prod(s[1:])
            return [T("nd", c, d, ((1,) + s[1:]) if c == "matrix" else s[1:], buf, mp[i * k:(i + 1) * k]) for i in range(s[0])]
        return H5World.elements(self, it, st, v)

    # -- datasets ----------------------------------------------------------
    def set_ds(self, st, p, v):
        d = dict(st.p.get("ds", self.ds))
        d[p] = v
        st.p["ds"] = tuple(sorted(d.items(), key=lambda kv: kv[0]))

    def load(self, st, p, idx):
        r = dict(st.p.get("ds", self.ds)).get(p)
        if r is None:
            return None
        d, s, el, fl = r
        if isinstance(d, tuple) and d[0] == "struct" and tuple(n for n, f in d[1]) == ("r", "i") and d[1][0][1] == d[1][1][1] and kind(d[1][0][1]) == "f":
            cd = "complex%d" % (2 * 8 * itemsize(d[1][0][1]))
            el = tuple(cplx(self.field(e, "r"), self.field(e, "i")) for e in el)
            d = cd
        if d in ("vlenstr", "vlenS1"):
            d = "object"
        a = self.new(st, d, s, el)
        if idx.tag == "tup" and not idx.args:
            return self.scalar(st, d, el[0]) if s == () else a
        if idx is ext("builtins.Ellipsis") or is_c(idx) and cval(idx) is Ellipsis or idx.tag == "slice" and all(x is NONE for x in idx.args):
            return a
        return None

    def h5_call(self, it, st, base, m, a, kw, n, fr):
        path, k = base.args
        kd = dict(kw)
        if k == "dataset":
            if m == "__getitem__" and len(a) == 1:
                return self.getitem(it, st, base, a[0], n)
            if m == "__setitem__" and len(a) == 2:
                return [(x, NONE) for x in self.setitem(it, st, base, a[0], a[1], n)]
            if m == "astype":
                return None
        if m in ("get", "__contains__") and a and a[0].tag == "h5ref":
            return None
        if m in ("create_dataset", "require_dataset"):
            names = ["name", "shape", "dtype", "data"]
            full = dict(zip(names, a))
            full.update(kd)
            r = H5World.h5_call(self, it, st, base, m, a, kw, n, fr)
            if r is None or len(r) != 1 or r[0][1].tag != "h5" or m == "require_dataset" and r[0][1].args[0] in dict(st.p.get("ds", self.ds)):
                return r
            x, h = r[0]
            v = full.get("data", NONE)
            d = full.get("dtype", NONE)
            d = self.dtype(it, x, d) if d is not NONE else None
            if v is not NONE:
                sv = self.stored(it, x, v, d)
                if sv == "TypeError":
                    self.remove(x, h.args[0])
                    it.throw_named(x, "TypeError", n, fr, explicit=False)
                    return []
            else:
                sh = self.ints(it, x, full.get("shape", NONE))
                sv = (d or "float32", tuple(sh), (C(0),) * prod(sh)) if sh is not None else (None, None, NONE)
            fl = dict(NOFILTER)
            for f in DSET_ATTRS:
                if f in full:
                    fl[f] = full[f]
            fl["chunks"] = full.get("chunks", NONE)
            if sv[0] is None:
                self.ev(x, "dataset", h.args[0], None, None, tuple(sorted(fl.items())))
                self.set_ds(x, h.args[0], ("unknown", (), (T("top"),), tuple(sorted(fl.items()))))
                return r
            self.ev(x, "dataset", h.args[0], sv[0], sv[1], tuple(sorted(fl.items())))
            st2 = dict(fl)
            if st2["compression"] is C("gzip") and st2["compression_opts"] is NONE:
                st2["compression_opts"] = C(4)
            if is_c(st2["compression"]) and isinstance(cval(st2["compression"]), int) and not isinstance(cval(st2["compression"]), bool):
                st2["compression_opts"], st2["compression"] = st2["compression"], C("gzip")
            if st2["compression"] is C("szip"):
                st2["compression_opts"] = C(("nn", 8))
            if any(st2[f] not in (NONE, FALSE) for f in ("compression", "fletcher32", "shuffle")) and st2["chunks"] is NONE:
                st2["chunks"] = TRUE
            self.set_ds(x, h.args[0], (sv[0], sv[1], tuple(sv[2]), tuple(sorted(st2.items()))))
            return r
        return H5World.h5_call(self, it, st, base, m, a, kw, n, fr)

    # -- dtypes ------------------------------------------------------------
    def dtype(self, it, st, t, must=False):
        """Spec of a dtype argument, None when unknown."""
        if t.tag == "dt":
            return t.args[0]
        if t is NONE:
            return "float64"
        if is_c(t) and isinstance(cval(t), str):
            d = parse_str(cval(t))
            if must and d is None and re.fullmatch(r"(void|bytes|str)\d+", cval(t)):
                raise Raises("TypeError")
            return d
        if t is ext("h5py.ref_dtype"):
            return "ref"
        if t.tag == "ext":
            return from_type(t.args[0])
        o = it.obj(st, t)
        if o is not None and o.kind == "list" and o.exact:
            out = []
            for e in it.exact_items(st, t):
                e = e[0] if isinstance(e, tuple) else e
                if e.tag != "tup" or len(e.args) not in (2, 3):
                    return None
                nm = e.args[0]
                if isarr(nm) and nm.args[2] == ():
                    nm = self.elems(st, nm)[0]
                d = self.dtype(it, st, e.args[1])
                if d is None or not is_c(nm) or not isinstance(cval(nm), str):
                    return None
                if len(e.args) == 3:
                    s = self.ints(it, st, e.args[2])
                    if s is None:
                        return None
                    if s != []:
                        d = ("sub", d, tuple(s)) if not (isinstance(d, tuple) and d[0] == "sub") else ("sub", d[1], tuple(s) + d[2])
                out.append((cval(nm) or "f%d" % len(out), d))
            if len({n for n, d in out}) != len(out):
                return None
            return ("struct", tuple(out))
        if t.tag == "tup" and len(t.args) == 2:
            d = self.dtype(it, st, t.args[0])
            s = self.ints(it, st, t.args[1])
            if d is not None and s is not None:
                return ("sub", d, tuple(s)) if s else d
        return None

    def dt_attr(self, it, st, d, name, n):
        if name == "type":
            return ext(type_name(d))
        if name == "name":
            return C(dtype_name(d))
        if name == "kind":
            return C(kind(d))
        if name == "char":
            return C(CHAR.get("object" if kind(d) == "O" else nat(d), kind(d)))
        if name == "itemsize":
            return C(itemsize(d))
        if name == "str":
            return C(code(d) if not isinstance(d, tuple) else "|V%d" % itemsize(d))
        if name == "hasobject":
            return C(hasobject(d))
        if name == "shape":
            return C(d[2]) if isinstance(d, tuple) and d[0] == "sub" else T("tup")
        if name == "ndim":
            return C(len(d[2]) if isinstance(d, tuple) and d[0] == "sub" else 0)
        if name == "base":
            return T("dt", d[1] if isinstance(d, tuple) and d[0] == "sub" else d)
        if name == "subdtype":
            return T("tup", T("dt", d[1]), C(d[2])) if isinstance(d, tuple) and d[0] == "sub" else NONE
        if name == "byteorder":
            return C(">" if big(d) else "=" if kind(d) in "uifcU" and (kind(d) == "U" or NUM.get(d, 1) > 1) else "|")
        if name == "isnative":
            return C(nat(d) == d)
        if name in ("names", "fields"):
            if not isinstance(d, tuple) or d[0] != "struct":
                return NONE
            if name == "names":
                return C(tuple(x for x, f in d[1]))
            off, items = 0, {}
            for x, f in d[1]:
                items[C(x)] = (T("tup", T("dt", f), C(off)), True)
                off += itemsize(f)
            return it.alloc(st, Obj("dict", data=items), n)
        return None

    # -- access ------------------------------------------------------------
    def getattr(self, it, st, base, name, n):
        if name == "maps" and base.tag == "call" and base.args[0] is ext("collections.ChainMap"):
            # The list is the map's own, changing it changes the map.
            made = dict(st.p.get("maps", ()))
            if base not in made:
                made[base] = it.alloc(st, Obj("list", data=tuple((x, frozenset()) for x in base.args[1])), n)
                st.p["maps"] = tuple(made.items())
            return [(st, made[base])]
        if isarr(base):
            t = self.now(st, base)
            c, d, s, buf, mp = t.args
            v = None
            if name == "dtype":
                v = T("dt", d)
            elif name == "shape":
                v = C(s)
            elif name == "size":
                v = C(prod(s))
            elif name == "ndim":
                v = C(len(s))
            elif name == "nbytes":
                v = C(prod(s) * itemsize(d))
            elif name == "itemsize":
                v = C(itemsize(d))
            elif name == "T":
                v = self.transpose(t)
            elif name == "flat":
                v = self.flat(st, t)
            elif name == "data":
                v = t
            elif name == "base":
                return None
            elif name in ("real", "imag") and kind(d) == "c":
                fd = "float%d" % (8 * itemsize(d) // 2)
                f = real_part if name == "real" else imag_part
                e = [f(x) for x in self.elems(st, t)]
                v = self.scalar(st, fd, e[0]) if c == "scalar" else self.new(st, fd, s, e, c, alias=buf)
            elif name in ("real", "imag") and kind(d) in "fui":
                v = t if name == "real" else self.new(st, d, s, [C(0)] * prod(s))
            elif name == "__class__":
                v = self.pytype(it, st, t)
            elif isinstance(d, tuple) and d[0] == "struct" and c == "recarray" and name in dict(d[1]):
                return self.getitem(it, st, base, C(name), n)
            return None if v is None else [(st, self.apart(st, v, t))]
        if base.tag == "dt":
            v = self.dt_attr(it, st, base.args[0], name, n)
            return None if v is None else [(st, v)]
        if base.tag == "typed":
            v = self.part(it, st, base, name)
            if v is not None:
                return [(st, v)]
        if base.tag in ("s", "y", "typed") or base.tag == "c" and not isinstance(cval(base), type):
            # Known types haven't attributes of arrays.
            t = base.args[1] if base.tag == "typed" else self.own_type(it, st, base) if base.tag != "c" else ext("builtins." + type(cval(base)).__name__)
            t = stdlib(t) if t is not None and t.tag == "ext" else None
            if t is not None and name in ARRAY_ONLY and not hasattr(t, name):
                it.throw_named(st, "AttributeError", n, it.frames[-1], explicit=False)
                return []
        if base.tag == "h5" and base.args[1] == "dataset":
            r = dict(st.p.get("ds", self.ds)).get(base.args[0])
            if r is not None and r[1] is not None:
                d, s, el, fl = r
                fl = dict(fl)
                if name == "dtype":
                    return [(st, T("dt", stored_dtype(d)))] if d != "unknown" else None
                if name == "shape":
                    return [(st, C(s))]
                if name == "size":
                    return [(st, C(prod(s)))]
                if name == "ndim":
                    return [(st, C(len(s)))]
                if name == "nbytes" and d != "unknown":
                    return [(st, C(prod(s) * itemsize(d)))]
                if name in fl:
                    return [(st, fl[name])]
        return H5World.getattr(self, it, st, base, name, n)

    # Parts of Python values: {class: {attribute: class}}.
    PARTS = {
        "builtins.slice": {"start": "", "stop": "", "step": ""},
        "builtins.range": {"start": "builtins.int", "stop": "builtins.int", "step": "builtins.int"},
        "datetime.timedelta": {k: "builtins.int" for k in ("days", "seconds", "microseconds")},
        "datetime.date": {k: "builtins.int" for k in ("year", "month", "day")},
        "datetime.time": dict({k: "builtins.int" for k in ("hour", "minute", "second", "microsecond", "fold")}, tzinfo="datetime.timezone"),
        "datetime.datetime": dict({k: "builtins.int" for k in ("year", "month", "day", "hour", "minute", "second", "microsecond", "fold")}, tzinfo="datetime.timezone"),
        "fractions.Fraction": {"numerator": "builtins.int", "denominator": "builtins.int", "_numerator": "builtins.int", "_denominator": "builtins.int"},
        "collections.ChainMap": {},
        "collections.deque": {"maxlen": ""},
    }
    over = {}           # values of parts: {(name, part): term}

    def part(self, it, st, base, name):
        cls = base.args[1].args[0]
        p = self.PARTS.get(cls, {})
        nm = base.args[0].args[0] if base.args[0].tag == "sym" else None
        if (nm, name) in self.over:
            return self.over[nm, name]
        if name not in p:
            return None
        tp = p[name] or "builtins.int"
        return T("typed", T("part", base.args[0], name.lstrip("_")), ext(tp))

    def type_of(self, it, st, x):
        return self.own_type(it, st, x)

    def own_type(self, it, st, x):
        if isarr(x):
            c, d = x.args[:2]
            return ext(ARRAYS[c] if c != "scalar" else type_name(d))
        g = x.tag
        if g in ("s", "dec", "text", "decoded"):
            return ext("builtins.str")
        if g in ("y", "enc", "bytesof", "digits", "raw"):
            return ext("builtins.bytes")
        if g == "dt":
            return ext("numpy.dtype")
        if g == "h5ref":
            return ext("h5py.Reference")
        if g == "h5":
            return ext("h5py.File" if x.args[0] == "/" else "h5py.Group" if x.args[1] == "group" else "h5py.Dataset")
        if g == "h5attrs":
            return ext("h5py.AttributeManager")
        return None

    def transpose(self, t):
        c, d, s, buf, mp = t.args
        if len(s) < 2:
            return t
        idx = {co: i for i, co in enumerate(itertools.product(*[range(k) for k in s]))}
        s2 = s[::-1]
        return T("nd", c, d, s2, buf, tuple(mp[idx[co[::-1]]] for co in itertools.product(*[range(k) for k in s2])))

    def flat(self, st, t):
        c, d, s, buf, mp = t.args
        if c == "scalar":
            if buf is None:
                return self.new(st, d, (1,), self.elems(st, t))
            return T("nd", "ndarray", d, (1,), buf, mp)
        return T("nd", "ndarray" if c == "matrix" else c, d, (prod(s),), buf, mp)

    def contiguous(self, t):
        c, d, s, buf, mp = t.args
        if not mp or buf is None:
            return True
        mp = [m[0] if isinstance(m, tuple) and len(m) == 1 else m for m in mp]
        if isinstance(mp[0], tuple):
            return len(mp) == 1
        return all(b == a + 1 for a, b in zip(mp, mp[1:]))

    # -- facts -------------------------------------------------------------
    def decide(self, it, st, atom):
        g, a = atom.tag, atom.args
        if g == "truth":
            x = a[0]
            if isarr(x):
                t = self.now(st, x)
                e = self.elems(st, t)
                if len(e) == 1:
                    k = kind(t.args[1])
                    if k in "SU":
                        return bool(slen(e[0])) if slen(e[0]) is not None else None
                    if k in "OV":
                        return it.truth(e[0], st) if k == "O" else None
                    return it.truth(e[0], st)
                if not e:
                    return False
                return None
            if x.tag in ("s", "y", "enc", "dec", "text", "digits") and slen(x) is not None:
                return slen(x) > 0
            if x.tag in ("dt", "h5ref"):
                return True
        if g == "hasattr" and is_c(a[1]):
            nm = cval(a[1])
            if isarr(a[0]):
                if nm in ARRAY_ATTRS:
                    return True
            if a[0].tag == "typed" and isinstance(nm, str):
                cls = stdlib(a[0].args[1])
                if cls is not None:
                    return hasattr(cls, nm)
            if a[0].tag in ("s", "y", "typed", "h5ref") and nm in ("dtype", "shape", "flat", "ndim"):
                return False
            if a[0].tag == "dt":
                return nm in ("type", "name", "fields", "names", "shape", "itemsize", "base")
            if a[0] is ext("numpy"):
                return nm in ("matrix", "ndarray", "dtype", "bytes_", "str_", "void", "bool_") or None
        if g == "cmp" and a[0] == "is" and NONE in a[1:]:
            x = a[1] if a[2] is NONE else a[2]
            if isarr(x) or x.tag in ("s", "y", "dt", "h5ref", "enc", "dec", "text"):
                return False
        if g == "cmp" and a[0] == "is" and a[1].tag == a[2].tag == "h5" or g == "cmp" and a[0] == "eq" and a[1].tag == a[2].tag == "h5":
            return a[1].args[0] == a[2].args[0] if a[0] == "eq" else None
        if g == "cmp" and a[0] == "eq" and {a[1].tag, a[2].tag} == {"h5ref"}:
            return a[1].args[0] == a[2].args[0]
        if g == "cmp" and a[0] == "lt":
            for x in a[1:]:
                if mentions_byte(x):
                    return self.byte_lt(a[1], a[2])
        if g == "cmp" and a[0] == "eq":
            x, y = a[1:]
            for p, q in ((x, y), (y, x)):
                if p.tag in ("s", "y") and is_c(q) and isinstance(cval(q), (str, bytes)):
                    if type(cval(q)) is not (str if p.tag == "s" else bytes) or slen(p) != len(cval(q)):
                        return False
                if p.tag in ("s", "y", "typed") and q is NONE:
                    return False
        return H5World.decide(self, it, st, atom)

    def byte_lt(self, a, b):
        """Order of bytes of text and constants."""
        a, b = byte_value(a), byte_value(b)
        if is_c(a) and is_c(b):
            return cval(a) < cval(b)
        if is_c(b) and isinstance(cval(b), int):
            return self.ascii if cval(b) == 128 else True if cval(b) > 255 else False if cval(b) <= 0 else None
        if is_c(a) and isinstance(cval(a), int):
            return not self.ascii if cval(a) == 127 else False if cval(a) >= 255 else True if cval(a) < 0 else None
        return None

    def compare(self, it, st, op, a, b, n):
        if op in ("Eq", "NotEq"):
            for x, y in ((a, b), (b, a)):
                # Decided for little endian machines, as NumPy's "=" is here.
                if x is ext("sys.byteorder") and is_c(y):
                    return C((cval(y) == "little") == (op == "Eq"))
        if a.tag == "dt" or b.tag == "dt":
            if op in ("Eq", "NotEq"):
                x, y = self.dtype(it, st, a), self.dtype(it, st, b)
                if (x is None and a.tag != "dt") or (y is None and b.tag != "dt") or a is NONE or b is NONE:
                    if a is NONE or b is NONE:
                        return C(op != "Eq")
                    return None
                r = plain_dtype(x) == plain_dtype(y)
                return C(r if op == "Eq" else not r)
            return None
        if a.tag == "tup" and b.tag == "tup" and op in ("Eq", "NotEq") and (any(map(isarr, a.args)) or any(map(isarr, b.args))):
            if len(a.args) != len(b.args):
                return C(op == "NotEq")
            if any(isarr(x) and x.args[2] for x in a.args + b.args):
                return None
            r = self.same(it, st, ((), a.args), ((), b.args), n)
            return None if r is None else C(r == (op == "Eq"))
        if not (isarr(a) or isarr(b)) or op in ("Is", "IsNot"):
            if op in ("Is", "IsNot") and isarr(a) and isarr(b) and a is not b and a.args[0] != "scalar":
                return C(op != "Is") if self.now(st, a) is not self.now(st, b) else None
            return None
        for x, y in ((a, b), (b, a)):
            if x is NONE or x.tag in ("ext", "cls", "dt", "fn", "h5", "h5ref") and isarr(y) and y.args[0] == "scalar":
                if isarr(y) and (y.args[0] == "scalar" or y.args[2] == ()):
                    return C(op == "NotEq") if op in ("Eq", "NotEq") else None
        xa, ya = self.peek(it, st, a), self.peek(it, st, b)
        if xa is None or ya is None:
            return None
        (sa, ea), (sb, eb) = xa, ya
        if sa == sb:
            pairs, sh = list(zip(ea, eb)), sa
        elif len(eb) == 1 and len(sb) <= len(sa):
            pairs, sh = [(e, eb[0]) for e in ea], sa
        elif len(ea) == 1 and len(sa) <= len(sb):
            pairs, sh = [(ea[0], e) for e in eb], sb
        else:
            return C(op == "NotEq") if op in ("Eq", "NotEq") else None
        out = []
        for x, y in pairs:
            v = it.compare(op, x, y, st, n, it.frames[-1])
            out.append(v)
        if sh == ():
            return out[0]
        return self.new(st, "bool", sh, out)

    def peek(self, it, st, x):
        """(shape, elements) of a value compared with an array."""
        if isarr(x):
            t = self.now(st, x)
            return t.args[2], self.elems(st, t)
        o = it.obj(st, x)
        if x.tag == "tup" or o is not None and o.kind == "list":
            a = self.asarr(st, it, x)
            return None if a is None else (a.args[2], self.elems(st, a))
        return (), [x]

    def binop(self, it, st, op, a, b, n):
        if not (isarr(a) or isarr(b)):
            return None
        xa, ya = self.peek(it, st, a), self.peek(it, st, b)
        if xa is None or ya is None:
            return None
        (sa, ea), (sb, eb) = xa, ya
        if sa == () and sb == ():
            pair = [(ea[0], eb[0])]
            sh = ()
        elif len(eb) == 1 and len(sb) <= len(sa):
            pair, sh = [(e, eb[0]) for e in ea], sa
        elif sa == sb:
            pair, sh = list(zip(ea, eb)), sa
        else:
            return None
        da = a.args[1] if isarr(a) else None
        db = b.args[1] if isarr(b) else None
        d = da if db is None else db if da is None else promote(da, db)
        if d is None or isinstance(d, tuple) or kind(d) in "SUO":
            return None
        out = []
        for x, y in pair:
            r = it.binop(op, x, y, st, n, it.frames[-1])
            if len(r) != 1:
                return r
            out.append(r[0][1])
        if op in ("Div",) and kind(d) in "uib":
            d = "float64"
        return [(st, self.scalar(st, d, out[0]) if sh == () else self.new(st, d, sh, out))]

    # -- calls -------------------------------------------------------------
    def call(self, it, st, f, args, kw, n, fr):
        try:
            r = self.np_call(it, st, f, list(args), dict((k, v) for k, v in kw if k is not None), n, fr)
        except Unknown:
            r = None
        except Raises as e:
            return self.throw(it, st, e.args[0], n, fr)
        if r is not None:
            return r
        return H5World.call(self, it, st, f, args, kw, n, fr)

    def throw(self, it, st, name, n, fr):
        it.throw_named(st, name, n, fr, explicit=False)
        return []

    def shape_of(self, it, st, x):
        if x is None:
            raise Unknown
        s = self.ints(it, st, x)
        if s is None:
            raise Unknown
        return tuple(s)

    def np_call(self, it, st, f, a, kw, n, fr):
        if f.tag == "attr":
            base, m = f.args
            if base.tag == "dt" and m == "newbyteorder":
                o = pyval_or((a or list(kw.values()) or [C("S")])[0])
                o = {"little": "<", "big": ">", "native": "=", "swap": "S"}.get(o, o) if isinstance(o, str) else None
                if o is None or o.upper() not in "<>=|IBLNS":
                    raise Unknown
                return [(st, T("dt", ordered(base.args[0], o.upper())))]
            if isarr(base):
                return self.views(self.now(st, base), self.method(it, st, self.now(st, base), m, a, kw, n, fr))
            return self.value_method(it, st, base, m, a, kw, n, fr)
        if f.tag != "ext":
            return None
        nm = f.args[0]
        if nm.startswith("builtins."):
            return self.builtin(it, st, nm[9:], a, kw, n, fr)
        if nm.startswith("h5py."):
            return self.h5py_call(it, st, nm[5:], a, kw, n, fr)
        if nm == "ast.literal_eval" and len(a) == 1 and is_c(a[0]):
            import ast as ast_
            try:
                v = ast_.literal_eval(cval(a[0]))
            except (ValueError, SyntaxError) as e:
                return self.throw(it, st, type(e).__name__, n, fr)
            return [(st, self.from_py(it, st, v, n))]
        if nm == "random.getrandbits" and self.rand:
            k = st.p.get("rnd", 0)
            st.p["rnd"] = k + 1
            v = self.rand[k] if k < len(self.rand) else 0x7000 + k
            return [(st, C(v))]
        if nm == "copy.deepcopy" and a:
            o = it.obj(st, a[0])
            if o is not None and o.kind == "list" and all(is_c(x[0]) for x in o.data):
                return [(st, it.alloc(st, o.with_(), n))]
            if isarr(a[0]):
                return [(st, self.asarr(st, it, a[0], copy=True))]
        if nm == "datetime.timezone.utc":
            return None
        if not nm.startswith("numpy."):
            return None
        nm = nm[6:]
        one = lambda v: [(st, v)]
        if nm in ("zeros", "empty", "ones", "full"):
            s = self.shape_of(it, st, a[0] if a else kw.get("shape"))
            if any(k < 0 for k in s):
                return self.throw(it, st, "ValueError", n, fr)
            rest = a[1:]
            fill = None
            if nm == "full":
                fill = rest.pop(0) if rest else kw.get("fill_value")
            dt = rest[0] if rest else kw.get("dtype", NONE)
            d = self.dtype(it, st, dt, True)
            if d is None:
                raise Unknown
            if nm == "full":
                if dt is NONE or kind(d) != "O":
                    x = self.asarr(st, it, fill)
                    if x is None or x.args[2] != ():
                        raise Unknown
                    d = d if dt is not NONE else x.args[1]
                    e = cast(self.elems(st, x)[0], x.args[1], d)
                else:
                    e = fill
            else:
                e = zero(d) if nm != "ones" else cast(C(1), "int64", d)
            if isinstance(d, tuple) and d[0] == "sub":
                return one(self.new(st, d[1], s + d[2], list(e.args[0]) * prod(s)))
            if d in ("S0", "U0"):
                d = d[0] + "1"
            return one(self.new(st, d, s, [e] * prod(s)))
        if nm in ("zeros_like", "empty_like", "ones_like") and a and isarr(a[0]):
            x = self.now(st, a[0])
            dt = a[1] if len(a) > 1 else kw.get("dtype", NONE)
            d = x.args[1] if dt is NONE else self.dtype(it, st, dt, True)
            if d is None:
                raise Unknown
            s = x.args[2] if kw.get("shape", NONE) is NONE else self.shape_of(it, st, kw["shape"])
            e = zero(d) if nm[0] != "o" else cast(C(1), "int64", d)
            return one(self.new(st, d, s, [e] * prod(s), x.args[0] if x.args[0] != "scalar" else "ndarray"))
        if nm in ("array", "asarray", "asanyarray", "ascontiguousarray", "copy", "require") and a:
            dt = a[1] if len(a) > 1 and nm != "copy" else kw.get("dtype", NONE)
            d = None if dt is NONE else self.dtype(it, st, dt, True)
            if dt is not NONE and d is None:
                raise Unknown
            sub = nm == "asanyarray" or kw.get("subok") is TRUE
            cp = nm == "copy" or nm == "array" and kw.get("copy", TRUE) is not FALSE
            x = self.asarr(st, it, a[0], d, cp)
            if x is None:
                raise Unknown
            if not sub and x.args[0] != "ndarray":
                x = self.view(x, "ndarray")
            if nm == "ascontiguousarray" and not self.contiguous(x):
                x = self.astype(st, x, x.args[1], "C")
            if nm == "ascontiguousarray" and x.args[2] == ():
                x = self.view(x, shape=(1,))
            md = self.ints(it, st, kw["ndmin"]) if "ndmin" in kw else [0]
            if md is None:
                raise Unknown
            if len(x.args[2]) < md[0]:
                x = self.view(x, shape=(1,) * (md[0] - len(x.args[2])) + x.args[2])
            return one(x)
        if nm in ("asmatrix", "matrix") and a:
            x = self.asarr(st, it, a[0], copy=nm == "matrix")
            if x is None or len(x.args[2]) > 2:
                raise Unknown
            s = x.args[2]
            return one(self.view(x, "matrix", shape=(1,) * (2 - len(s)) + s))
        if nm in ("atleast_1d", "atleast_2d") and len(a) == 1:
            x = self.asarr(st, it, a[0])
            if x is None:
                raise Unknown
            k = int(nm[8]) - len(x.args[2])
            return one(self.view(x, shape=(1,) * k + x.args[2]) if k > 0 else x)
        if nm in ("prod", "product") and len(a) == 1:
            if isarr(a[0]) and kind(a[0].args[1]) not in "uib":
                raise Unknown
            v = self.ints(it, st, a[0])
            return one(self.scalar(st, "int64", C(prod(v)))) if v is not None else None
        if nm in ("any", "all", "sometrue", "alltrue") and len(a) == 1:
            any_ = nm in ("any", "sometrue")
            if isarr(a[0]):
                es = self.elems(st, a[0])
            elif is_c(a[0]) or a[0].tag in ("cmp", "not", "truth"):
                es = [a[0]]
            else:
                ex = it.exact_items(st, a[0])
                if ex is None:
                    return None
                es = [e[0] if isinstance(e, tuple) else e for e in ex]
            ts = [it.truth(e, st) for e in es]
            if any(t is any_ for t in ts):
                return one(C(any_))
            return one(C(not any_)) if all(t is not None for t in ts) else None
        if nm in ("iscomplexobj", "isrealobj") and len(a) == 1:
            if isarr(a[0]):
                return one(C((kind(a[0].args[1]) == "c") == (nm == "iscomplexobj")))
            raise Unknown
        if nm in ("ndim", "shape", "size") and len(a) == 1:
            x = self.asarr(st, it, a[0])
            if x is None:
                raise Unknown
            return self.getattr(it, st, x, nm, n)
        if nm in ("transpose", "swapaxes", "reshape", "ravel", "squeeze", "byteswap") and a and isarr(a[0]):
            return self.method(it, st, self.now(st, a[0]), nm, a[1:], kw, n, fr)
        if nm == "array_equal" and len(a) == 2:
            x, y = self.peek(it, st, a[0]), self.peek(it, st, a[1])
            if x is None or y is None:
                return None
            if isarr(a[0]) and isarr(a[1]) and x[0] == y[0] and x[0] != ():
                # Arrays in arrays are compared with ==, which gives arrays.
                for p, q in zip(x[1], y[1]):
                    if isarr(p) and isarr(q) and p.args[2] and q.args[2]:
                        sp, sq = self.now(st, p).args[2], self.now(st, q).args[2]
                        if max(prod(sp), prod(sq)) > 1 or len(sp) == len(sq) and any(u != v and 1 not in (u, v) for u, v in zip(sp, sq)):
                            raise Raises("ValueError")
            return self.tri(st, self.same(it, st, x, y, n))
        if nm == "result_type":
            out = None
            for x in a:
                d = x.args[1] if isarr(x) else self.dtype(it, st, x)
                out = d if out is None else promote(out, d) if d is not None else None
                if out is None:
                    raise Unknown
            return one(T("dt", out))
        if nm in ("promote_types",) and len(a) == 2:
            d = [self.dtype(it, st, x) for x in a]
            if None in d or promote(*d) is None:
                raise Unknown
            return one(T("dt", promote(*d)))
        if nm == "dtype" and a:
            d = self.dtype(it, st, a[0], True)
            if d is None:
                raise Unknown
            return one(T("dt", d))
        if nm == "issubdtype" and len(a) == 2:
            d = self.dtype(it, st, a[0], True)
            x = ext(type_name(d)) if d is not None and a[0].tag == "dt" else a[0]
            y = a[1] if a[1].tag == "ext" and self.dtype(it, st, a[1]) is None else ext(type_name(self.dtype(it, st, a[1]) or "?0")) if self.dtype(it, st, a[1]) else a[1]
            from sa import models
            if x.tag == "ext" and y.tag == "ext":
                r = models.ext_is_subclass(x.args[0], y.args[0])
                if r is not None:
                    return one(C(r))
            raise Unknown
        if nm == "ndenumerate" and a and isarr(a[0]):
            x = self.now(st, a[0])
            es = self.elements(it, st, self.flat(st, x))
            items = [T("tup", C(co), e) for co, e in zip(itertools.product(*[range(k) for k in x.args[2]]), es)]
            return self.members(it, st, items, "list", n)
        if nm == "ndindex":
            s = self.ints(it, st, a[0]) if len(a) == 1 else [pyval_or(x) for x in a]
            if s is None:
                raise Unknown
            return self.members(it, st, [C(co) for co in itertools.product(*[range(k) for k in s])], "list", n)
        if nm in ("char.encode", "char.decode", "core.defchararray.encode", "core.defchararray.decode") and a:
            x = self.asarr(st, it, a[0])
            cd = pyval_or(a[1] if len(a) > 1 else kw.get("encoding", C("utf-8")))
            if x is None or not isinstance(cd, str):
                raise Unknown
            if self.surrogates and x.args[4] and kind(x.args[1]) == "U":
                return self.throw(it, st, "UnicodeEncodeError", n, fr)
            return one(self.recode(it, st, x, cd, nm.endswith("encode")))
        if nm in ("ndarray", "frombuffer"):
            return self.from_buffer(it, st, nm, a, kw, n, fr)
        if nm == "concatenate" or nm == "hstack":
            return None
        # Scalar types called.
        d = from_type("numpy." + nm) if "numpy." + nm in NPTYPES else None
        if d is not None and nm not in ("void", "object_"):
            return self.construct(it, st, d, a, kw, n, fr)
        return None

    def tri(self, st, v):
        return None if v is None else [(st, C(v))]

    def same(self, it, st, x, y, n):
        if x[0] != y[0]:
            return False
        out = True
        for p, q in zip(x[1], y[1]):
            if p is q:
                continue
            if isarr(p) and isarr(q):
                r = self.same(it, st, self.peek(it, st, p), self.peek(it, st, q), n)
            else:
                v = it.compare("Eq", p, q, st, n, it.frames[-1])
                r = it.truth(v, st)
            if r is False:
                return False
            if r is None:
                out = None
        return out

    def from_py(self, it, st, v, n):
        if isinstance(v, list):
            return it.alloc(st, Obj("list", data=tuple((self.from_py(it, st, x, n), frozenset()) for x in v)), n)
        if isinstance(v, tuple):
            return T("tup", *[self.from_py(it, st, x, n) for x in v])
        if isinstance(v, dict):
            return it.alloc(st, Obj("dict", data={self.from_py(it, st, k, n): (self.from_py(it, st, x, n), True) for k, x in v.items()}), n)
        return C(v)

    def construct(self, it, st, d, a, kw, n, fr):
        one = lambda v: [(st, v)]
        k = kind(d)
        if not a:
            return one(self.scalar(st, d if d not in ("S0", "U0") else d, zero(d)))
        x = a[0]
        if isarr(x):
            y = self.astype(st, x, d) if self.now(st, x).args[1] != d else self.now(st, x)
            if y.args[2] == ():
                return one(self.scalar(st, y.args[1], self.elems(st, y)[0]))
            return one(y)
        tp = self.type(it, st, x)
        if k in "SU":
            v = pyval_or(x, NotConst) if is_c(x) else NotConst
            if k == "S":
                if len(a) > 1 or "encoding" in kw:
                    cd = pyval_or(a[1] if len(a) > 1 else kw["encoding"])
                    e = encoded(x, cd)
                elif isinstance(v, bytes):
                    e = x
                elif isinstance(v, str):
                    try:
                        e = C(v.encode("ascii"))
                    except UnicodeEncodeError:
                        return self.throw(it, st, "UnicodeEncodeError", n, fr)
                elif isinstance(v, int) and not isinstance(v, bool):
                    e = C(str(v).encode())
                elif tp is ext("builtins.int"):
                    e = T("digits", x)
                elif tp is ext("builtins.bytes") and x.tag != "call":
                    e = x
                elif tp is ext("builtins.bytearray"):
                    e = T("bytesof", x)
                elif tp is ext("builtins.str"):
                    if not self.ascii:
                        return self.throw(it, st, "UnicodeEncodeError", n, fr)
                    e = encoded(x, "UTF-8")
                else:
                    raise Unknown
            else:
                if isinstance(v, str) or tp is ext("builtins.str"):
                    e = x
                elif isinstance(v, bytes):
                    raise Unknown
                else:
                    raise Unknown
            if slen(e) is None:
                raise Unknown
            return one(self.scalar(st, k + str(slen(e)), e))
        if k == "V":
            raise Unknown
        if x.tag == "tup" or it.obj(st, x) is not None:
            y = self.asarr(st, it, x)
            if y is None:
                raise Unknown
            return one(self.astype(st, y, d))
        if is_c(x) and isinstance(cval(x), (bool, int, float, complex)):
            v = cval(x)
            if k in "ui" and isinstance(v, int):
                bits = 8 * NUM[d]
                lo, hi = (0, 2 ** bits) if k == "u" else (-2 ** (bits - 1), 2 ** (bits - 1))
                if not lo <= v < hi:
                    return self.throw(it, st, "OverflowError", n, fr)
            return one(self.scalar(st, d, cast(x, "?", d)))
        if tp is ext("builtins.int") and k in "ui":
            if not self.int_fits:
                return self.throw(it, st, "OverflowError", n, fr)
            return one(self.scalar(st, d, x if d == "int64" else T("cast", x, d, "int64")))
        pd = {"builtins.bool": "bool", "builtins.float": "float64", "builtins.complex": "complex128", "builtins.int": "int64"}.get(tp.args[0] if tp is not None and tp.tag == "ext" else "")
        if pd is not None:
            return one(self.scalar(st, d, cast(x, pd, d)))
        raise Unknown

    def type(self, it, st, x):
        from sa import models
        return models.type_of(it, st, x)

    def recode(self, it, st, x, cd, enc):
        c, d, s, buf, mp = self.now(st, x).args
        es = self.elems(st, x)
        if enc and kind(d) != "U" or not enc and kind(d) != "S":
            raise Unknown
        if not enc and norm_codec(cd)[:6] in ("UTF-16", "UTF-32"):
            # NumPy dropped the null characters the last character may have at its end.
            es = [T("cutnulls", e) for e in es]
        es = [encoded(e, cd) if enc else text_of(e, cd) for e in es]
        ls = [slen(e) for e in es]
        if None in ls:
            raise Unknown
        return self.new(st, ("S" if enc else "U") + str(max(ls + [1])), s, es, c if c != "scalar" else "ndarray")

    def from_buffer(self, it, st, nm, a, kw, n, fr):
        if nm == "ndarray":
            names = ["shape", "dtype", "buffer"]
        else:
            names = ["buffer", "dtype"]
        full = dict(zip(names, a))
        full.update(kw)
        d = self.dtype(it, st, full.get("dtype", NONE))
        b = full.get("buffer")
        if d is None:
            raise Unknown
        if nm == "ndarray" and (b is None or b is NONE):
            s = self.shape_of(it, st, full.get("shape"))
            return [(st, self.new(st, d, s, [zero(d)] * prod(s)))]
        if b is None or not isarr(b):
            raise Unknown
        x = self.now(st, b)
        if x.args[0] == "scalar":
            x = self.asarr(st, it, x)
        if not self.contiguous(x):
            return self.throw(it, st, "ValueError", n, fr)
        fl = T("nd", "ndarray", x.args[1], (prod(x.args[2]),), x.args[3], x.args[4])
        v = self.view_as(st, fl, d)
        if nm == "ndarray":
            s = self.shape_of(it, st, full.get("shape"))
            if prod(s) > len(v.args[4]):
                return self.throw(it, st, "TypeError", n, fr)
            v = self.view(v, shape=s, mp=v.args[4][:prod(s)])
        return [(st, v)]

    def view_as(self, st, t, d):
        """The same memory as another dtype."""
        c, old, s, buf, mp = t.args
        if old == d:
            return t
        es = self.elems(st, t)
        root = buf
        if isinstance(d, tuple) and d[0] == "struct" and isinstance(old, str) and kind(old) == "c":
            if len(d[1]) == 2 and all(nat(f) == "float%d" % (4 * itemsize(old)) for n, f in d[1]):
                (n0, f0), (n1, f1) = d[1]
                sw = lambda f, e: e if big(f) == big(old) else swap(e)
                return self.made(st, d, s, [T("rec", (n0, sw(f0, real_part(e))), (n1, sw(f1, imag_part(e)))) for e in es], c, root)
        if isinstance(old, tuple) and old[0] == "struct" and isinstance(d, str) and kind(d) == "c":
            if len(old[1]) == 2 and all(nat(f) == "float%d" % (4 * itemsize(d)) for n, f in old[1]):
                sw = lambda f, e: e if big(f) == big(d) else swap(e)
                (n0, f0), (n1, f1) = old[1]
                return self.made(st, d, s, [cplx(sw(f0, self.field(e, n0)), sw(f1, self.field(e, n1))) for e in es], c, root)
        if isinstance(d, tuple) or isinstance(old, tuple):
            if isinstance(d, tuple) and isinstance(old, tuple) and d[0] == old[0] == "struct" and [f for n, f in d[1]] == [f for n, f in old[1]]:
                return self.made(st, d, s, [T("rec", *[(n, self.field(e, o)) for (n, f), (o, g) in zip(d[1], old[1])]) for e in es], c, root)
            raise Unknown
        if kind(d) == "O" or kind(old) == "O":
            if kind(d) == kind(old):
                return self.view(t, dtype=d)
            raise Unknown
        io, in_ = itemsize(old), itemsize(d)
        if nat(d) == nat(old):
            # Only the byte order differs.
            if kind(d) == "U":
                raise Unknown
            el = [swap(e) for e in es] if kind(d) != "c" else [cplx(swap(real_part(e)), swap(imag_part(e))) for e in es]
            return self.made(st, d, s, el, c, root)
        if d in ("S0", "U0"):
            k = io if d == "S0" else io // 4
            d = d[0] + str(k)
            in_ = itemsize(d)
            if d == old:
                return t
        if not io or not in_:
            raise Unknown
        if io == in_:
            if kind(old) in "SU" and kind(d) in "SU":
                raise Unknown
            if kind(old) in "SU":
                el = [units(e, old, d)[0] for e in es]
            elif kind(d) in "SU":
                el = [group([e], old, d) for e in es]
            elif kind(old) in "ui" and kind(d) in "ui" and big(old) == big(d) or {kind(old), kind(d)} == {"b", "u"}:
                el = [e if kind(d) != "b" and kind(old) != "b" else cast(e, old, d) for e in es]
            else:
                el = [T("bits", e if big(d) == big(old) else swap(e), nat(d), nat(old)) for e in es]
            return self.made(st, d, s, el, c, root)
        if not s:
            raise Raises("ValueError")
        if s[-1] > 1 and prod(s) and not isinstance(mp[0], tuple) and any(b != a + 1 for i, (a, b) in enumerate(zip(mp, mp[1:])) if (i + 1) % s[-1]):
            raise Raises("ValueError")
        if io > in_:
            if io % in_:
                raise Raises("ValueError")
            k = io // in_
            if kind(d) in "SU":
                raise Unknown
            el = [u for e in es for u in units(e, old, d)]
            return self.made(st, d, s[:-1] + (s[-1] * k,), el, c, root)
        if in_ % io or s[-1] % (in_ // io):
            raise Raises("ValueError")
        k = in_ // io
        if kind(old) in "SU":
            raise Unknown
        return self.made(st, d, s[:-1] + (s[-1] // k,), [group(es[i:i + k], old, d) for i in range(0, len(es), k)], c, root)

    def made(self, st, d, s, el, c, root):
        if c == "scalar":
            return T("nd", "scalar", d, (), None, tuple(el)) if s == () and not isinstance(d, tuple) else self.new(st, d, s, el, "ndarray", root) if s != () else \
                T("nd", "scalar", d, (), self.newbuf(st, el, root), (0,))
        return self.new(st, d, s, el, c, root)

    def method(self, it, st, t, m, a, kw, n, fr):
        c, d, s, buf, mp = t.args
        one = lambda v: [(st, v)]
        size = prod(s)
        if m == "view":
            x = a[0] if a else kw.get("dtype", kw.get("type"))
            ty = kw.get("type") if x is not kw.get("type") else None
            if len(a) > 1:
                ty = a[1]
            if x is None:
                return one(t)
            if x.tag == "ext" and x.args[0] in CONT:
                if c == "scalar":
                    t = self.asarr(st, it, t)
                return one(self.view(t, CONT[x.args[0]]))
            nd = self.dtype(it, st, x)
            if nd is None:
                raise Unknown
            v = self.view_as(st, t, nd)
            if ty is not None and ty.tag == "ext" and ty.args[0] in CONT:
                v = self.view(v, CONT[ty.args[0]])
            return one(v)
        if m == "astype":
            nd = self.dtype(it, st, a[0] if a else kw.get("dtype", NONE))
            if nd is None:
                raise Unknown
            if isinstance(nd, tuple) and nd[0] == "sub":
                raise Unknown
            if nd == d and (kw.get("copy") is FALSE):
                return one(t)
            if isinstance(nd, tuple) and not isinstance(d, tuple) and size:
                v = self.new(st, nd, s, [T("rec", *[(x, cast(e, d, f) if not isinstance(f, tuple) else T("arr", (e,) * prod(f[2])) if f[0] == "sub" else T("cast", e, f, d)) for x, f in nd[1]])
                                         for e in self.elems(st, t)], c)
                return one(v)
            return one(self.astype(st, t, nd))
        if m == "reshape":
            s2 = self.shape_arg(it, st, a if a else [kw.get("newshape", kw.get("shape", NONE))], size)
            if s2 is None or kw.get("order", C("C")) is not C("C"):
                raise Unknown
            if s2 == "ValueError":
                return self.throw(it, st, "ValueError", n, fr)
            if c == "scalar":
                t = self.asarr(st, it, t)
            if not self.contiguous(t):
                t = self.astype(st, t, d, "C")
            return one(self.view(t, shape=s2))
        if m in ("ravel", "flatten"):
            if (a and a[0] is not C("C")) or kw.get("order", C("C")) is not C("C"):
                raise Unknown
            if c == "scalar":
                return one(self.new(st, d, (1,), self.elems(st, t)))
            if m == "flatten" or not self.contiguous(t):
                t = self.astype(st, t, d, "C")
            return one(self.view(t, shape=(size,) if c != "matrix" else (1, size)))
        if m in ("copy", "__copy__", "__deepcopy__"):
            return one(t if c == "scalar" and buf is None else self.astype(st, t, d, "K" if m == "__deepcopy__" else "C") if c != "scalar" else T("nd", "scalar", d, (), self.newbuf(st, self.elems(st, t)), (0,)))
        if m == "transpose":
            if a:
                ax = self.ints(it, st, a[0]) if len(a) == 1 and a[0] is not NONE else [pyval_or(x) for x in a]
                if a[0] is NONE:
                    return one(self.transpose(t))
                if ax is None or sorted(ax) != list(range(len(s))):
                    raise Unknown
                return one(self.permute(t, ax))
            return one(self.transpose(t))
        if m == "swapaxes" and len(a) == 2:
            i, j = [pyval_or(x) for x in a]
            if not isinstance(i, int) or not isinstance(j, int):
                raise Unknown
            ax = list(range(len(s)))
            ax[i], ax[j] = ax[j], ax[i]
            return one(self.permute(t, ax))
        if m in ("tobytes", "tostring"):
            es = self.elems(st, t)
            if all(is_c(e) and isinstance(cval(e), bytes) and len(cval(e)) == itemsize(d) for e in es) and kind(d) == "S":
                return one(C(b"".join(cval(e) for e in es)))
            if len(es) == 1 and kind(d) == "S":
                e = es[0]
                if is_c(e):
                    return one(C(cval(e).ljust(itemsize(d), b"\0")))
                return one(e if slen(e) == itemsize(d) else T("raw", (e,), d))
            if len(es) == 1 and kind(d) == "U":
                return one(encoded(es[0], "UTF-32BE" if big(d) else "UTF-32LE"))
            return one(T("raw", tuple(es), d))
        if m == "item":
            es = self.elems(st, t)
            if len(a) == 1 and is_c(a[0]) and isinstance(cval(a[0]), int):
                if not -size <= cval(a[0]) < size:
                    return self.throw(it, st, "IndexError", n, fr)
                return one(es[cval(a[0])])
            if a:
                raise Unknown
            if size != 1:
                return self.throw(it, st, "ValueError", n, fr)
            return one(es[0])
        if m == "tolist":
            if s == ():
                return one(self.elems(st, t)[0])
            if isinstance(d, tuple):
                raise Unknown
            def build(es, sh):
                if len(sh) == 1:
                    return it.alloc(st, Obj("list", data=tuple((e, frozenset()) for e in es)), n)
                k = prod(sh[1:])
                return it.alloc(st, Obj("list", data=tuple((build(es[i * k:(i + 1) * k], sh[1:]), frozenset()) for i in range(sh[0]))), n)
            return one(build(self.elems(st, t), s))
        if m == "byteswap":
            ip = (a and a[0] is TRUE) or kw.get("inplace") is TRUE
            if isinstance(d, tuple) or kind(d) not in "uifbc":
                raise Unknown
            es = [swap(e) if itemsize(d) > 1 else e for e in self.elems(st, t)]
            if ip:
                self.write(st, t, range(size), es)
                return one(t)
            return one(self.new(st, d, s, es, c))
        if m == "squeeze" and not a and not kw:
            return one(self.view(t, shape=tuple(k for k in s if k != 1)) if c not in ("matrix", "scalar") else t)
        if m in ("all", "any") and not a and not kw:
            return self.np_call(it, st, ext("numpy." + m), [t], {}, n, fr)
        if m == "fill" and len(a) == 1:
            x = self.asarr(st, it, a[0]) if kind(d) != "O" else None
            e = a[0] if kind(d) == "O" else cast(self.elems(st, x)[0], x.args[1], d) if x is not None and not isinstance(d, tuple) else T("top")
            self.write(st, t, range(size), [e] * size)
            return one(NONE)
        if m in ("encode", "decode") and c in ("scalar",) and kind(d) in "SU":
            return self.value_method(it, st, self.elems(st, t)[0], m, a, kw, n, fr)
        if m in ("encode", "decode") and c == "chararray" and kind(d) in "SU":
            cd = pyval_or(a[0] if a else kw.get("encoding", C("utf-8")))
            if not isinstance(cd, str):
                raise Unknown
            return one(self.recode(it, st, t, cd, m == "encode"))
        if m == "setflags":
            return one(NONE)
        if m in ("sort", "resize", "put", "itemset", "partition"):
            self.write(st, t, range(size), [T("top")] * size)
            return one(NONE)
        if m == "prod":
            return self.np_call(it, st, ext("numpy.prod"), [t], {}, n, fr)
        if m == "__len__" and s:
            return one(C(s[0]))
        if c == "scalar" and kind(d) in "SU" and is_c(self.elems(st, t)[0]):
            # Methods of str and bytes.
            from sa import models
            return models.ext_call(it, st, T("attr", self.elems(st, t)[0], m), a, list(kw.items()), n, fr)
        return None

    def permute(self, t, ax):
        c, d, s, buf, mp = t.args
        idx = {co: i for i, co in enumerate(itertools.product(*[range(k) for k in s]))}
        s2 = tuple(s[i] for i in ax)
        out = []
        for co in itertools.product(*[range(k) for k in s2]):
            src = [0] * len(s)
            for i, k in zip(ax, co):
                src[i] = k
            out.append(mp[idx[tuple(src)]])
        return T("nd", c, d, s2, buf, tuple(out))

    def value_method(self, it, st, x, m, a, kw, n, fr):
        """Methods of str and bytes values."""
        if m in ("decode", "encode"):
            cd = pyval_or(a[0] if a else kw.get("encoding", C("utf-8")))
            if not isinstance(cd, str):
                return None
            if is_c(x):
                try:
                    return [(st, C(getattr(cval(x), m)(cd)))]
                except (UnicodeError, LookupError, AttributeError) as e:
                    return self.throw(it, st, type(e).__name__, n, fr)
            lenient = pyval_or(a[1] if len(a) > 1 else kw.get("errors", C("strict"))) == "surrogatepass"
            if m == "decode" and self.surrogates and not lenient and norm_codec(cd)[:6] in ("UTF-16", "UTF-32"):
                return self.throw(it, st, "UnicodeDecodeError", n, fr)
            if m == "decode":
                if x.tag == "raw":
                    es, d = x.args
                    if kind(d) in "ui":
                        return [(st, decode_units(es, d, cd))]
                    if kind(d) == "S" and len(es) == 1:
                        return [(st, text_of(es[0], cd))]
                    return [(st, T("decoded", es, d, norm_codec(cd)))]
                if x.tag in ("y", "enc", "bytesof", "digits", "grp"):
                    return [(st, text_of(x, cd))]
            elif x.tag in ("s", "dec", "text", "decoded"):
                if norm_codec(cd)[:3] == "UTF" and self.surrogates and not lenient:
                    return self.throw(it, st, "UnicodeEncodeError", n, fr)
                if norm_codec(cd) == "ASCII":
                    if not self.ascii:
                        return self.throw(it, st, "UnicodeEncodeError", n, fr)
                    cd = "UTF-8"
                return [(st, encoded(x, cd))]
            return None
        if m in ("rstrip", "strip", "lstrip") and x.tag in ("s", "y", "dec", "text", "nobom", "cutnulls") and len(a) == 1 and pyval_or(a[0]) in ("\0", b"\0"):
            # Strings are taken not to start or end with null characters.
            return [(st, x)]
        if m == "__reduce__" and x.tag == "typed" and x.args[1] is ext("datetime.timezone"):
            parts = [T("typed", T("part", x.args[0], "offset"), ext("datetime.timedelta"))]
            if self.tz_named is not None:
                parts.append(self.tz_named)
            return [(st, T("tup", ext("datetime.timezone"), T("tup", *parts)))]
        if m == "utcoffset" and x.tag == "typed" and x.args[1] is ext("datetime.timezone"):
            return [(st, T("typed", T("part", x.args[0], "offset"), ext("datetime.timedelta")))]
        return None

    tz_named = None

    def builtin(self, it, st, b, a, kw, n, fr):
        one = lambda v: [(st, v)]
        if b == "len" and len(a) == 1:
            x = a[0]
            if isarr(x):
                t = self.now(st, x)
                if t.args[2]:
                    return one(C(t.args[2][0]))
                if t.args[0] == "scalar" and kind(t.args[1]) in "SU":
                    k = slen(self.elems(st, t)[0])
                    return one(C(k)) if k is not None else None
                if isinstance(t.args[1], tuple) and t.args[0] == "scalar":
                    return one(C(len(t.args[1][1])))
                return self.throw(it, st, "TypeError", n, fr)
            if x.tag in ("s", "y", "enc", "dec", "text", "digits", "bytesof") and slen(x) is not None:
                return one(C(slen(x)))
            return None
        if len(a) != 1 or kw:
            if b in ("str",) and len(a) == 2:
                return self.value_method(it, st, a[0], "decode", a[1:], {}, n, fr) if a[0].tag != "c" else None
            if b == "bytes" and len(a) == 2 and a[0].tag != "c":
                return self.value_method(it, st, a[0], "encode", a[1:], {}, n, fr)
            return None
        x = a[0]
        if b == "iter" and isarr(x):
            es = self.elements(it, st, x)
            return self.members(it, st, es, "list", n) if es is not None else None
        if b in ("bool", "int", "float", "complex", "str", "bytes", "bytearray"):
            e = x
            if isarr(x):
                t = self.now(st, x)
                if prod(t.args[2]) != 1:
                    if b == "bytes":
                        return one(T("raw", tuple(self.elems(st, t)), t.args[1]))
                    if b == "bytearray":
                        return None
                    return self.throw(it, st, "TypeError", n, fr) if b in ("int", "float", "complex") else None
                e = self.elems(st, t)[0]
                k = kind(t.args[1])
                if b == "str" and k not in "SU":
                    return None
                if b == "str" and k == "S":
                    return None
                if b in ("bytes", "bytearray") and k != "S":
                    return one(T("raw", (e,), t.args[1])) if b == "bytes" else None
                if b == "bool" and k not in "b":
                    r = it.truth(x, st)
                    return one(C(r)) if r is not None else None
            elif e.tag not in ("s", "y", "typed", "enc", "dec", "text", "decoded", "digits", "bytesof", "cast", "cplx", "re", "dt", "raw"):
                return None
            if e.tag == "dt":
                return one(C(dtype_str(e.args[0]))) if b == "str" else None
            if b == "int" and e.tag == "digits":
                return one(e.args[0])
            if b == "bytearray":
                return one(e.args[0] if e.tag == "bytesof" else T("call", ext("builtins.bytearray"), (e,), ()))
            if b == "bytes" and e.tag == "typed" and e.args[1] is ext("builtins.bytearray"):
                return one(T("bytesof", e))
            tp = self.type(it, st, e)
            if tp is ext("builtins." + b):
                return one(e)
            if e is not x:
                return it.call(ext("builtins." + b), [e], [], st, n, fr)
            return None
        if b in ("list", "tuple", "set", "frozenset", "sorted") and isarr(x):
            es = self.elements(it, st, x)
            if es is None:
                return self.throw(it, st, "TypeError", n, fr)
            if b == "tuple":
                return one(T("tup", *es))
            o = Obj("list" if b in ("list", "sorted") else "set", data=tuple((e, frozenset()) for e in es), cls=ext("builtins.frozenset") if b == "frozenset" else None)
            return one(it.alloc(st, o, n))
        if b == "repr" and x.tag == "dt":
            return one(C("dtype(%s)" % dtype_str(x.args[0])))
        return None

    def h5py_call(self, it, st, nm, a, kw, n, fr):
        one = lambda v: [(st, v)]
        if nm in ("special_dtype",):
            if "ref" in kw:
                return one(T("dt", "ref"))
            if "vlen" in kw:
                v = kw["vlen"]
                if v in (ext("builtins.str"), ext("numpy.str_")):
                    return one(T("dt", "vlenstr"))
                if self.dtype(it, st, v) == "S1":
                    return one(T("dt", "vlenS1"))
            return None
        if nm == "string_dtype" and not a and not kw:
            return one(T("dt", "vlenstr"))
        if nm == "vlen_dtype" and a and self.dtype(it, st, a[0]) == "S1":
            return one(T("dt", "vlenS1"))
        if nm in ("check_dtype", "check_ref_dtype", "check_vlen_dtype", "check_string_dtype"):
            x = kw.get("ref", kw.get("vlen")) if nm == "check_dtype" else a[0] if a else kw.get("dt")
            if x is None or x.tag != "dt":
                return None
            what = "ref" if "ref" in kw or nm == "check_ref_dtype" else "vlen"
            if what == "ref":
                return one(ext("h5py.Reference") if x.args[0] == "ref" else NONE)
            return one(ext("builtins.str") if x.args[0] == "vlenstr" else T("dt", "S1") if x.args[0] == "vlenS1" else NONE)
        return None
