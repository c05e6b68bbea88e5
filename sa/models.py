"""Models of builtins, containers and a few library functions.

Everything without a model stays an opaque, uninterpreted call term.
"""

import ast
import builtins
import operator
import os
import pathlib
import posixpath
import re

from . import strings
from .terms import (
    C, FALSE, NONE, NotConst, T, TRUE, UNBOUND, Term, alts, cval, ext, is_c,
    join_terms, pyval, show, walk,
)

# ------------------------------------------------------------------ names

ALIASES = {
    "numpy.unicode_": "numpy.str_",
    "numpy.string_": "numpy.bytes_",
    "numpy.core.records.recarray": "numpy.recarray",
    "numpy.rec.recarray": "numpy.recarray",
    "numpy.bool": "numpy.bool_",
    "numpy.object0": "numpy.object_",
    "io.open": "builtins.open",
    "builtins.IOError": "builtins.OSError",
    "builtins.EnvironmentError": "builtins.OSError",
    "h5py._hl.group.Group": "h5py.Group",
    "h5py._hl.dataset.Dataset": "h5py.Dataset",
    "h5py._hl.files.File": "h5py.File",
    "collections.abc.Mapping": "collections.abc.Mapping",
    "typing.Mapping": "collections.abc.Mapping",
    "typing.OrderedDict": "collections.OrderedDict",
}
PATH_PURE = {
    "join", "normpath", "dirname", "basename", "split", "commonpath", "isabs",
    "splitext", "commonprefix", "relpath",
}


def norm_ext(name):
    if name.startswith("os.path."):
        rest = name[len("os.path."):]
        if rest in PATH_PURE or rest == "sep":
            name = "posixpath." + rest
    if name == "posixpath.sep":
        return C("/")
    name = ALIASES.get(name, name)
    if name.startswith("numpy.core.records."):
        name = "numpy." + name.rsplit(".", 1)[1]
    if name == "sys.maxunicode":
        return C(0x10FFFF)
    return ext(name)


# External classes by the module and name they say they have.
CLASSES = {
    "builtins": "int str bytes bytearray float bool complex list tuple dict set frozenset object type "
                "slice range NoneType ellipsis NotImplementedType memoryview",
    "collections": "OrderedDict Counter ChainMap deque defaultdict",
    "datetime": "timedelta timezone date time datetime tzinfo",
    "fractions": "Fraction",
    "decimal": "Decimal",
    "numpy": "ndarray matrix chararray recarray bool_ void uint8 uint16 uint32 uint64 int8 int16 int32 int64 "
             "float16 float32 float64 complex64 complex128 bytes_ str_ object_ generic number record "
             "longdouble clongdouble datetime64 timedelta64 dtype",
}
CLASSES = {m: set(v.split()) for m, v in CLASSES.items()}


def class_names(full):
    """(module, name) of an external class or None."""
    m, _, n = full.rpartition(".")
    if n in CLASSES.get(m, ()):
        return m, n
    return None


def mro_term(it, q):
    return T("tup", *([T("cls", c) for c in it.mro(q)] + [ext(b) for b in dict.fromkeys(it.ext_bases(q))] + [ext("builtins.object")]))


PURE_BUILTINS = {
    "len", "type", "isinstance", "issubclass", "str", "int", "float", "bool",
    "bytes", "repr", "ord", "chr", "hex", "min", "max", "sum", "abs", "round",
    "tuple", "list", "set", "frozenset", "sorted", "reversed", "iter", "zip",
    "enumerate", "range", "map", "filter", "id", "hash", "callable", "slice",
    "complex", "divmod", "bytearray", "dict", "ascii", "format", "hasattr",
}
PURE_EXT = {
    "numpy.dtype", "numpy.prod", "numpy.any", "numpy.all", "numpy.isrealobj",
    "numpy.iscomplexobj", "numpy.ndim", "numpy.shape", "numpy.result_type",
    "numpy.issubdtype", "numpy.can_cast", "numpy.array_equal",
    "h5py.check_dtype", "h5py.check_ref_dtype", "h5py.special_dtype",
    "itertools.chain", "itertools.dropwhile", "itertools.takewhile",
    "itertools.filterfalse", "itertools.islice", "numpy.ndenumerate",
    "collections.OrderedDict",
}
PURE_METHODS = {
    "startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip",
    "replace", "split", "rsplit", "join", "format", "partition",
    "rpartition", "isdigit", "isidentifier", "encode", "decode", "find",
    "index", "count", "keys", "items", "values", "union", "difference",
    "intersection", "issubset", "issuperset", "ljust", "rjust", "zfill",
    "title", "swapcase", "casefold", "capitalize", "isalpha", "isalnum",
    "as_posix",
}


def is_pure(f):
    if f.tag == "ext":
        n = f.args[0]
        if n.startswith("builtins."):
            return n[9:] in PURE_BUILTINS
        if n.startswith("posixpath.") or n.startswith("operator."):
            return True
        return n in PURE_EXT
    if f.tag == "attr":
        return f.args[1] in PURE_METHODS
    return False


# ------------------------------------------------------------ exceptions

H5 = {}


def is_exc_name(n):
    if n.startswith("builtins."):
        c = getattr(builtins, n[9:], None)
        return isinstance(c, type) and issubclass(c, BaseException)
    return False


def exc_class(prog, t):
    if t is None:
        return None
    if t.tag == "ext":
        n = t.args[0]
        return n[9:] if n.startswith("builtins.") else n
    if t.tag == "cls":
        return t.args[0]
    return None


def _ext_ancestors(prog, q, seen=None):
    """Builtin ancestors of a package class."""
    out = set()
    ci = prog.classes.get(q)
    if ci is None:
        return out
    for b in ci.bases:
        if isinstance(b, ast.Name):
            x = ci.module.ns.get(b.id)
            if x is not None and x[0] == "cls":
                out.add(x[1].qual)
                out |= _ext_ancestors(prog, x[1].qual)
            elif x is not None and x[0] == "from":
                y = prog.modules[x[1]].ns.get(x[2])
                if y is not None and y[0] == "cls":
                    out.add(y[1].qual)
                    out |= _ext_ancestors(prog, y[1].qual)
            elif hasattr(builtins, b.id):
                out.add(b.id)
    return out


def exc_subclass(prog, a, b):
    """Is class a a subclass of class b?  True, False or None."""
    an, bn = exc_class(prog, a), exc_class(prog, b)
    if an is None or bn is None:
        return None
    if an == bn:
        return True
    if a.tag == "ext" and b.tag == "ext":
        ca, cb = getattr(builtins, an, None), getattr(builtins, bn, None)
        if isinstance(ca, type) and isinstance(cb, type):
            return issubclass(ca, cb)
        return None
    if a.tag == "cls":
        anc = _ext_ancestors(prog, an)
        if bn in anc:
            return True
        if b.tag == "cls":
            return False
        cb = getattr(builtins, bn, None)
        for x in anc:
            cx = getattr(builtins, x, None)
            if isinstance(cx, type) and isinstance(cb, type) and issubclass(cx, cb):
                return True
        return False
    if b.tag == "cls":
        return False
    return None


# ------------------------------------------------------------- containers


def list_append(it, st, t, v):
    o = it.obj(st, t)
    item = (v, it.cond_facts(st, v))
    if o is None:
        return
    if o.exact or item not in o.data:
        it.put(st, t, o.with_(data=o.data + (item,)))


def set_add(it, st, t, v):
    o = it.obj(st, t)
    if o is None:
        return
    item = (v, it.cond_facts(st, v))
    if not any(x[0] is v for x in o.data):
        it.put(st, t, o.with_(data=o.data + (item,)))


def _items_of(it, st, v):
    """(items with conditions, exact) of an iterable value or None."""
    o = it.obj(st, v)
    if o is not None and o.kind in ("list", "set"):
        return o.data, o.exact
    if o is not None and o.kind == "dict":
        return tuple((k, frozenset()) for k in o.data), o.exact
    ex = it.exact_items(st, v)
    if ex is not None:
        return tuple(e if isinstance(e, tuple) else (e, frozenset()) for e in ex), True
    return None


def list_extend(it, st, a, b, node):
    o = it.obj(st, a)
    r = _items_of(it, st, b)
    if r is None:
        uid = "%d@%s" % (st.fresh(), it.here(node))
        e = it.elem_of(st, b, uid)
        it.put(st, a, o.with_(data=o.data + ((e, it.cond_facts(st, e)),), exact=False))
    else:
        items, exact = r
        it.put(st, a, o.with_(data=o.data + tuple(items), exact=o.exact and exact))
    return a


def set_update(it, st, a, b, node):
    o = it.obj(st, a)
    r = _items_of(it, st, b)
    if r is None:
        uid = "%d@%s" % (st.fresh(), it.here(node))
        e = it.elem_of(st, b, uid)
        r = ((e, it.cond_facts(st, e)),), False
    items, exact = r
    data = list(o.data)
    for x in items:
        if not any(y[0] is x[0] for y in data):
            data.append(x)
    it.put(st, a, o.with_(data=tuple(data), exact=o.exact and exact))


def list_slice(it, st, o, i, node):
    from .interp import Obj
    try:
        s = slice(*[pyval(z) for z in i.args])
    except NotConst:
        return it.alloc(st, Obj("list", data=o.data, exact=False), node)
    if o.exact:
        return it.alloc(st, Obj("list", data=o.data[s], exact=True), node)
    return it.alloc(st, Obj("list", data=o.data, exact=False), node)


def dict_get(it, st, b, o, i, node, fr):
    i = resolve(st, i)
    if o.extra and o.extra[0] == "default" and i not in o.data:
        return default_item(it, st, b, o, i, node, fr)
    if i in o.data:
        v, must = o.data[i]
        if not must:
            _implicit_named(it, st, "KeyError", node, fr)
        return [(st, v)]
    if o.exact and o.data and all(k.tag in ("c", "tup", "ext", "cls") for k in o.data):
        out = []
        cand = []
        for k, (v, m) in o.data.items():
            d = it.decide(_eq(i, k), st)
            if d is True:
                return [(st, v)]
            if d is None:
                cand.append((k, v))
        if len(cand) <= 12:
            for k, v in cand:
                x = st.fork()
                if assume(it, x, _eq(i, k), True):
                    out.append((x, v))
        else:
            out.append((st.fork(), join_terms([v for _, v in cand])))
        for k, v in cand:
            if not assume(it, st, _eq(i, k), False):
                return out
        it.throw_named(st, "KeyError", node, fr, explicit=False)
        return out
    if o.exact and not o.data:
        it.throw_named(st, "KeyError", node, fr, explicit=False)
        return []
    _implicit_named(it, st, "KeyError", node, fr)
    vals = [v for v, m in o.data.values()]
    splats = [k.args[0] for k in o.data if k.tag == "splat"]
    if splats:
        return [(st, T("item", splats[0], i))]
    v = st.vars.get(("<item>", b, i))
    if v is not None:
        return [(st, v)]
    if vals and len(vals) <= 4:
        return [(st, join_terms(vals))]
    return [(st, T("item", b, i))]


def default_item(it, st, b, o, i, node, fr):
    """A key of a defaultdict that isn't surely there."""
    fac = o.extra[1]
    known = i.tag == "c" and o.exact and all(k.tag == "c" for k in o.data)
    if fac is NONE:
        if known:
            it.throw_named(st, "KeyError", node, fr, explicit=False)
            return []
        _implicit_named(it, st, "KeyError", node, fr)
        return [(st, T("item", b, i))]
    if fac is ext("builtins.NoneType") or fac is ext("types.NoneType"):
        res = [(st, NONE)]
    else:
        res = it.call(fac, [], [], st, node, fr)
    if not known:
        return [(x, join_terms([T("item", b, i), v])) for x, v in res]
    for x, v in res:
        p = it.obj(x, b)
        d = dict(p.data)
        d[i] = (v, True)
        it.put(x, b, p.with_(data=d))
    return res


def _implicit_named(it, st, name, node, fr):
    if it.try_depth or it.prop.track_implicit_raises:
        it.throw_named(st.fork(), name, node, fr, explicit=False)


# ------------------------------------------------------------------ atoms


def _eq(a, b):
    if b.idx < a.idx:
        a, b = b, a
    return T("cmp", "eq", a, b)


def _is(a, b):
    if b.idx < a.idx:
        a, b = b, a
    return T("cmp", "is", a, b)


def resolve(st, t):
    """Constant a term is known to equal on this path, or the term."""
    if t.tag in ("c", "tup", "ext", "cls", "fn", "obj"):
        return t
    c = st.facts.get(T("eqc", t))
    return c if c is not None else t


NEVER_NONE_BUILTINS = {
    "len", "type", "str", "int", "float", "bool", "bytes", "repr", "tuple",
    "list", "set", "frozenset", "sorted", "reversed", "iter", "zip", "dict",
    "enumerate", "range", "map", "filter", "isinstance", "complex", "bytearray",
}
BUILTIN_TYPES = {
    "str": str, "int": int, "float": float, "bool": bool, "bytes": bytes,
    "tuple": tuple, "list": list, "set": set, "frozenset": frozenset,
    "dict": dict, "complex": complex, "bytearray": bytearray,
    "object": object, "range": range, "slice": slice, "type": type,
    "property": property,
}
# Subclass relations used between external classes.
EXT_BASES = {
    "types.GeneratorType": ["collections.abc.Iterator"],
    "collections.abc.Iterator": ["collections.abc.Iterable"],
    "h5py.File": ["h5py.Group"],
    "numpy.matrix": ["numpy.ndarray"],
    "numpy.recarray": ["numpy.ndarray"],
    "numpy.chararray": ["numpy.ndarray"],
    "collections.OrderedDict": ["builtins.dict"],
    "collections.Counter": ["builtins.dict"],
    "collections.defaultdict": ["builtins.dict"],
    "builtins.bool": ["builtins.int"],
    "pathlib.Path": ["pathlib.PurePath"],
    "pathlib.PosixPath": ["pathlib.Path"],
    "pathlib.PurePosixPath": ["pathlib.PurePath"],
    "pathlib.PureWindowsPath": ["pathlib.PurePath"],
    "numpy.str_": ["builtins.str", "numpy.character"],
    "numpy.bytes_": ["builtins.bytes", "numpy.character"],
    "numpy.void": ["numpy.flexible"],
    "numpy.flexible": ["numpy.generic"],
    "numpy.object_": ["numpy.generic"],
    "numpy.bool_": ["numpy.generic"],
    "numpy.number": ["numpy.generic"],
    "numpy.character": ["numpy.flexible"],
    "numpy.integer": ["numpy.number"],
    "numpy.inexact": ["numpy.number"],
    "numpy.signedinteger": ["numpy.integer"],
    "numpy.unsignedinteger": ["numpy.integer"],
    "numpy.floating": ["numpy.inexact"],
    "numpy.complexfloating": ["numpy.inexact"],
    "numpy.float64": ["numpy.floating", "builtins.float"],
    "numpy.complex128": ["numpy.complexfloating", "builtins.complex"],
    "numpy.float16": ["numpy.floating"],
    "numpy.float32": ["numpy.floating"],
    "numpy.complex64": ["numpy.complexfloating"],
    "numpy.int8": ["numpy.signedinteger"],
    "numpy.int16": ["numpy.signedinteger"],
    "numpy.int32": ["numpy.signedinteger"],
    "numpy.int64": ["numpy.signedinteger"],
    "numpy.uint8": ["numpy.unsignedinteger"],
    "numpy.uint16": ["numpy.unsignedinteger"],
    "numpy.uint32": ["numpy.unsignedinteger"],
    "numpy.uint64": ["numpy.unsignedinteger"],
    "datetime.datetime": ["datetime.date"],
    "datetime.timezone": ["datetime.tzinfo"],
    "numpy.record": ["numpy.void"],
    "numpy.dtype": [], "datetime.timedelta": [], "datetime.time": [], "fractions.Fraction": [],
    "collections.deque": ["collections.abc.MutableSequence"], "collections.ChainMap": ["collections.abc.MutableMapping"],
    "builtins.dict": ["collections.abc.MutableMapping"],
    "collections.abc.MutableMapping": ["collections.abc.Mapping"],
    "collections.abc.Mapping": ["collections.abc.Iterable", "collections.abc.Collection"],
    "builtins.list": ["collections.abc.MutableSequence"],
    "collections.abc.MutableSequence": ["collections.abc.Sequence"],
    "builtins.tuple": ["collections.abc.Sequence"],
    "builtins.str": ["collections.abc.Sequence"],
    "builtins.bytes": ["collections.abc.ByteString", "collections.abc.Sequence"],
    "collections.abc.Sequence": ["collections.abc.Iterable", "collections.abc.Collection"],
    "collections.abc.Collection": ["collections.abc.Iterable", "collections.abc.Container", "collections.abc.Sized"],
    "builtins.set": ["collections.abc.MutableSet"],
    "builtins.frozenset": ["collections.abc.Set"],
    "collections.abc.MutableSet": ["collections.abc.Set"],
    "collections.abc.Set": ["collections.abc.Collection", "collections.abc.Iterable"],
}
CLOSED_WORLD = set(EXT_BASES) | {
    "builtins." + k for k in BUILTIN_TYPES
} | {
    "numpy.ndarray", "h5py.Group", "h5py.Dataset", "pathlib.PurePath",
    "h5py.Reference", "collections.abc.Iterable", "os.PathLike",
    "builtins.NoneType", "builtins.ellipsis", "builtins.NotImplementedType", "numpy.generic", "numpy.flexible",
}
CLOSED_WORLD |= {b for v in EXT_BASES.values() for b in v}


def ext_is_subclass(a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b or b == "builtins.object":
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += EXT_BASES.get(x, [])
    if b == "os.PathLike":
        return "pathlib.PurePath" in seen or None
    return False if a in CLOSED_WORLD and b in CLOSED_WORLD else None


def cls_is_subclass(it, a, b):
    """Subclass relation between class terms."""
    if a is b:
        return True
    if b.tag == "tup":
        rs = [cls_is_subclass(it, a, x) for x in b.args]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if a.tag == "ext" and b.tag == "ext":
        return ext_is_subclass(a.args[0], b.args[0])
    if a.tag == "cls":
        if b.tag == "cls":
            return b.args[0] in it.mro(a.args[0])
        if b.tag == "ext":
            bases = it.ext_bases(a.args[0])
            rs = [ext_is_subclass(x, b.args[0]) for x in bases]
            if any(r is True for r in rs) or b.args[0] == "builtins.object":
                return True
            ci = [it.prog.classes[c] for c in it.mro(a.args[0])]
            have = set()
            for c in ci:
                have |= set(c.members) | set(c.attrs)
            if b.args[0] == "collections.abc.Iterable" and "__iter__" in have:
                return True
            if all(r is False for r in rs):
                return False
            return None
    if a.tag == "ext" and b.tag == "cls":
        return False
    return None


ITERATORS = {"builtins." + k for k in ("map", "filter", "zip", "enumerate", "reversed", "iter")}


def type_of(it, st, t):
    """Class term of a value when known."""
    t = resolve(st, t)
    r = it.prop.type_of(it, st, t)
    if r is not None:
        return r
    if t.tag == "c":
        if isinstance(cval(t), pathlib.PurePath):
            return ext("pathlib." + type(cval(t)).__name__)
        return ext("builtins." + type(cval(t)).__name__)
    if t.tag in ("re", "match"):
        return ext("re.Pattern" if t.tag == "re" else "re.Match")
    if t is ext("builtins.NotImplemented"):
        return ext("builtins.NotImplementedType")
    if t is ext("builtins.Ellipsis"):
        return ext("builtins.ellipsis")
    if t.tag == "tup":
        return ext("builtins.tuple")
    if t.tag == "fstr":
        return ext("builtins.str")
    if t.tag == "typed":
        return t.args[1]
    o = it.obj(st, t)
    if o is not None:
        if o.kind == "inst":
            return T("cls", o.cls)
        if o.kind in ("list", "set", "dict"):
            return o.cls if isinstance(o.cls, Term) else ext("builtins." + o.kind)
        return None
    if t.tag == "call" and t.args[0].tag == "ext":
        n = t.args[0].args[0]
        if n.startswith("builtins.") and n[9:] in BUILTIN_TYPES and n[9:] != "type":
            return t.args[0]
        if n == "builtins.len":
            return ext("builtins.int")
        if n in ("posixpath.join", "posixpath.normpath", "posixpath.dirname", "posixpath.basename"):
            return None
        if n in EXT_BASES:
            return t.args[0]
        if n == "builtins.repr":
            return ext("builtins.str")
        if n == "builtins.sorted":
            return ext("builtins.list")
    if t.tag in ("fn", "cm"):
        return ext("types.FunctionType")
    if t.tag == "mod":
        return ext("types.ModuleType")
    return None


def isinst(it, st, x, c):
    c = resolve(st, c)
    if c.tag == "tup":
        rs = []
        for y in c.args:
            r = st.facts.get(T("isinst", x, y))
            rs.append(isinst(it, st, x, y) if r is None else r)
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if c.tag == "op" and c.args[0] == "bitor":
        return isinst(it, st, x, T("tup", *c.args[1:]))
    if c.tag == "call" and c.args[0] is ext("builtins.type") and c.args[1] and c.args[1][0] is NONE:
        c = ext("builtins.NoneType")
    tx = type_of(it, st, x)
    if tx is None:
        rx = resolve(st, x)
        ox = it.obj(st, rx)
        if (ox is not None and ox.kind in ("gen", "genexp") or rx.tag == "call" and rx.args[0].tag == "ext"
                and rx.args[0].args[0] in ITERATORS) and c.tag in ("ext", "cls"):
            if c.tag == "cls":
                return False
            n = c.args[0]
            if n in ("collections.abc.Iterable", "collections.abc.Iterator", "typing.Iterable", "typing.Iterator", "builtins.object"):
                return True
            if n.startswith(("builtins.", "numpy.", "h5py.")) and n not in ITERATORS or n in ("collections.abc.Sequence", "collections.abc.Mapping",
                    "collections.abc.Sized", "collections.abc.Set", "collections.abc.Collection"):
                return False
        if (rx.tag == "cls" or rx.tag == "ext" and class_names(rx.args[0])) and c.tag in ("ext", "cls"):
            if c.tag == "ext" and class_names(c.args[0]) or c.tag == "cls":
                # A class of a plain metaclass.
                if c in (ext("builtins.object"), ext("builtins.type")):
                    return True
                return False
        if c is ext("builtins.object"):
            return True
        return None
    o = it.obj(st, x)
    if c is ext("typing.Any"):
        return None
    return cls_is_subclass(it, tx, c)


NONNONE_TAGS = {"c", "tup", "fn", "cls", "ext", "mod", "bm", "cm", "fstr", "coll",
                "partial", "gencm", "excobj", "slice", "typed", "entered", "re", "match",
                # Values of the array model.
                "nd", "s", "y", "dt", "h5", "h5attrs", "h5ref", "enc", "dec", "text", "decoded", "digits"}


def maybe_none(it, st, t):
    """False when t is known not to be None."""
    if t is NONE:
        return True
    if t.tag in NONNONE_TAGS:
        return t.tag == "c" and cval(t) is None
    o = it.obj(st, t)
    if o is not None and o.kind != "top":
        return False
    if t.tag == "call" and t.args[0].tag == "ext":
        n = t.args[0].args[0]
        if n.startswith("builtins.") and n[9:] in NEVER_NONE_BUILTINS:
            return False
        if n.startswith("posixpath."):
            return False
        if n in ("threading.RLock", "threading.Lock", "h5py.File", "pathlib.PurePath", "numpy.dtype"):
            return False
    if t.tag == "op":
        return False
    return None


def _eq_known(it, st, a, b):
    a, b = resolve(st, a), resolve(st, b)
    if a is b:
        return True
    try:
        return bool(pyval(a) == pyval(b))
    except NotConst:
        pass
    for x, y in ((a, b), (b, a)):
        if x is NONE and maybe_none(it, st, y) is False:
            return False
        if x.tag in ("ext", "cls", "mod", "fn") and y.tag in ("ext", "cls", "mod", "fn", "c", "tup"):
            if x.tag == "ext" and y.tag == "ext" and ("numpy.dtype" in (x.args[0], y.args[0])):
                return None
            return False
        if x.tag == "tup" and y.tag == "c":
            return False
    if a.tag == "tup" and b.tag == "tup":
        if len(a.args) != len(b.args):
            return False
        rs = [_eq_known(it, st, p, q) for p, q in zip(a.args, b.args)]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    oa, ob = it.obj(st, a), it.obj(st, b)
    for o, t in ((oa, b), (ob, a)):
        if o is not None and o.kind in ("list", "set", "dict") and t.tag in ("c", "tup"):
            return False
    if oa is not None and ob is not None and oa.kind == ob.kind and oa.kind in ("list", "set"):
        if oa.exact and ob.exact:
            xa, xb = [x[0] for x in oa.data], [x[0] for x in ob.data]
            if oa.kind == "set":
                if set(xa) == set(xb):
                    return True
                try:
                    return {pyval(z) for z in xa} == {pyval(z) for z in xb}
                except (NotConst, TypeError):
                    return None
            if len(xa) != len(xb):
                return False
            rs = [_eq_known(it, st, p, q) for p, q in zip(xa, xb)]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
    if oa is not None and ob is not None and oa.kind == "inst" and ob.kind == "inst" and a is not b:
        # Different instances that compare by identity.
        if oa.lazy is None and ob.lazy is None and not any(
                it.ext_bases(o.cls) or it.find_member(o.cls, "__eq__") is not None for o in (oa, ob)):
            return False
    for o, t in ((oa, b), (ob, a)):
        if o is not None and o.kind == "inst" and o.lazy is None and t.tag in ("c", "tup", "ext", "cls", "fn", "mod"):
            if not it.ext_bases(o.cls) and it.find_member(o.cls, "__eq__") is None:
                return False
    # A string built with a constant prefix.
    for x, y in ((a, b), (b, a)):
        if x.tag == "fstr" and y.tag == "c" and isinstance(cval(y), str):
            s = cval(y)
            if x.args[0].tag == "c" and not s.startswith(cval(x.args[0])):
                return False
            if x.args[-1].tag == "c" and not s.endswith(cval(x.args[-1])):
                return False
    return None


def fold_atom(it, st, atom):
    g = atom.tag
    if g == "not":
        r = it.decide(atom.args[0], st)
        return None if r is None else not r
    if g == "cmp":
        op, a, b = atom.args
        if op == "eq":
            r = _eq_known(it, st, a, b)
            if r is None and (a is NONE or b is NONE):
                x = b if a is NONE else a
                r = st.facts.get(_is(x, NONE))
            if r is None:
                # Constants already excluded or chosen on this path.
                for x, y in ((a, b), (b, a)):
                    if y.tag == "c":
                        tr = st.facts.get(T("truth", x))
                        if tr is not None and isinstance(cval(y), (str, bytes, int)) and bool(cval(y)) is not tr and not isinstance(cval(y), bool):
                            return False
            return r
        if op == "is":
            a2, b2 = resolve(st, a), resolve(st, b)
            if a2 is b2:
                return True
            for x, y in ((a2, b2), (b2, a2)):
                if x is NONE:
                    m = maybe_none(it, st, y)
                    if m is False:
                        return False
                    if st.facts.get(T("truth", y)) is True:
                        return False
                if x.tag == "c" and isinstance(cval(x), bool):
                    if y.tag in ("c", "tup", "ext", "cls", "fn", "obj"):
                        return False
            if a2.tag == "c" and b2.tag == "c":
                return pyval(a2) is pyval(b2) or (type(pyval(a2)) is type(pyval(b2)) and pyval(a2) == pyval(b2))
            if a2.tag in ("ext", "cls", "mod", "fn", "obj", "c") and b2.tag in ("ext", "cls", "mod", "fn", "obj", "c"):
                return False
            return None
        if op == "lt":
            try:
                return bool(pyval(resolve(st, a)) < pyval(resolve(st, b)))
            except NotConst:
                pass
            except TypeError:
                return None
            if a is b:
                return False
            # Length domain.
            for x, y, v in ((a, b, False), (b, a, None)):
                if v is False and x.tag == "call" and x.args[0] is ext("builtins.len") and is_c(y):
                    if isinstance(cval(y), int) and cval(y) <= 0:
                        return False
            return None
        if op == "in":
            return _in_known(it, st, a, b)
    if g == "isinst":
        return isinst(it, st, atom.args[0], atom.args[1])
    if g == "truth":
        x = atom.args[0]
        y = resolve(st, x)
        if y is not x:
            return it.truth(y, st)
        n = st.facts.get(_is(x, NONE))
        if n is True:
            return False
        if x.tag == "call" and x.args[0] is ext("builtins.len"):
            r = st.facts.get(T("truth", x.args[1][0]))
            return r
        return None
    if g == "hasattr":
        x, name = atom.args
        o = it.obj(st, x)
        n = cval(name) if is_c(name) else None
        if o is not None and o.kind == "inst" and n:
            if n in o.data or it.find_member(o.cls, n) is not None:
                return True
            if o.lazy is None and not it.ext_bases(o.cls):
                return False
        if o is not None and o.kind in ("list", "set", "dict") and n:
            return hasattr({"list": list, "set": set, "dict": dict}[o.kind], n)
        if x.tag == "cls" and n:
            if it.find_member(x.args[0], n) is not None:
                return True
            if not it.ext_bases(x.args[0]):
                return False
        if x.tag == "ext" and n and n in CLASSES.get(x.args[0], ()):
            return True
        if x.tag in ("c", "tup") and n:
            return hasattr(cval(x) if x.tag == "c" else (), n)
        return None
    return None


KNOWN_TAGS = {"c", "tup", "ext", "cls", "fn", "mod"}


def _in_known(it, st, a, b):
    a = resolve(st, a)
    b = resolve(st, b)
    if b.tag == "coll":
        if a in b.args[0]:
            return True
        rs = []
        for e in b.args[0]:
            r = st.facts.get(_eq(a, e))
            if r is None:
                r = fold_atom(it, st, _eq(a, e))
            if r is True:
                return True
            rs.append(r)
        return False if all(r is False for r in rs) else None
    o = it.obj(st, b)
    if o is not None and o.kind in ("list", "set", "dict"):
        items = list(o.data) if o.kind == "dict" else [x[0] for x in o.data]
        conds = {} if o.kind == "dict" else dict((x[0], x[1]) for x in o.data)
        if a in items:
            if o.kind == "dict":
                return True if o.data[a][1] else None
            return True if not conds[a] else None
        if o.exact and len(items) <= 512 and (a.tag in KNOWN_TAGS or it.obj(st, a) is not None):
            sure = False
            for e in items:
                r = _eq_known(it, st, a, e)
                if r is None:
                    return None
                if r and (o.kind != "dict" and conds[e] or o.kind == "dict" and not o.data[e][1]):
                    return None
                sure = sure or r
            return sure
        return None
    if b.tag == "c":
        try:
            return pyval(a) in cval(b)
        except NotConst:
            return None
        except TypeError:
            return None
    if a.tag == "key" and (a.args[0] is b):
        return True
    return None


def assume(it, st, atom, b):
    while atom.tag == "not":
        atom, b = atom.args[0], not b
    if atom.tag == "truth" and (atom.args[0].tag in ("cmp", "isinst", "hasattr", "not", "truth")):
        return assume(it, st, atom.args[0], b)
    k = st.facts.get(atom)
    if k is None:
        k = fold_atom(it, st, atom)
        if k is None:
            k = it.prop.decide(it, st, atom)
    if k is not None:
        return k is b
    st.facts[atom] = b
    g = atom.tag
    if g == "truth":
        x = atom.args[0]
        if b:
            st.facts[_is(x, NONE)] = False
        if x.tag == "call" and x.args[0] is ext("builtins.len") and x.args[1]:
            st.facts.setdefault(T("truth", x.args[1][0]), b)
        if x.tag == "call" and x.args[0] is ext("builtins.bool") and x.args[1]:
            return assume(it, st, T("truth", x.args[1][0]), b)
    elif g == "cmp":
        op, p, q = atom.args
        if op == "is":
            for x, y in ((p, q), (q, p)):
                if x is NONE:
                    st.facts[_eq(y, NONE)] = b
                    if b:
                        st.facts[T("truth", y)] = False
                        st.facts[T("eqc", y)] = NONE
                elif b and x.tag in ("c", "ext", "cls"):
                    st.facts[T("eqc", y)] = x
                    st.facts[_eq(y, x)] = True
                if x.tag in ("ext", "cls") and not b:
                    st.facts.setdefault(_eq(y, x), False)
        elif op == "eq":
            for x, y in ((p, q), (q, p)):
                if b and x.tag in ("c", "tup", "ext", "cls") and y.tag not in ("c", "tup", "ext", "cls"):
                    try:
                        pyval(x) if x.tag in ("c", "tup") else None
                    except NotConst:
                        continue
                    # Something equal to False or 0 need not be that object,
                    # but its truth value is the same.
                    st.facts.setdefault(T("eqc", y), x)
                    if x.tag == "c" and x is not NONE:
                        st.facts[_is(y, NONE)] = False
        elif op == "in":
            if q.tag == "coll":
                if b:
                    live = [e for e in q.args[0] if it.decide(_eq(p, e), st) is not False]
                    if not live:
                        return False
                    if len(live) == 1:
                        return assume(it, st, _eq(p, live[0]), True)
                else:
                    for e in q.args[0]:
                        if it.decide(_eq(p, e), st) is True:
                            return False
                        st.facts.setdefault(_eq(p, e), False)
    elif g == "isinst":
        x, c = atom.args
        if c.tag == "tup":
            if not b:
                for y in c.args:
                    st.facts[T("isinst", x, y)] = False
            elif len(c.args) == 1:
                st.facts[T("isinst", x, c.args[0])] = True
        if b:
            st.facts.setdefault(_is(x, NONE), False)
    return True


# -------------------------------------------------------------- operators

_BIN = {
    "Add": ("add", operator.add), "Sub": ("sub", operator.sub),
    "Mult": ("mul", operator.mul), "Div": ("div", operator.truediv),
    "FloorDiv": ("floordiv", operator.floordiv), "Mod": ("mod", operator.mod),
    "Pow": ("pow", operator.pow), "BitAnd": ("bitand", operator.and_),
    "BitOr": ("bitor", operator.or_), "BitXor": ("bitxor", operator.xor),
    "LShift": ("lshift", operator.lshift), "RShift": ("rshift", operator.rshift),
    "MatMult": ("matmul", operator.matmul),
}


def _strish(t):
    return t.tag == "fstr" or (t.tag == "c" and isinstance(cval(t), str))


def binop(it, op, a, b, st, node, fr):
    from .interp import Obj
    name, f = _BIN[op]
    a, b = resolve(st, a), resolve(st, b)
    try:
        x, y = pyval(a), pyval(b)
        big = (op in ("Pow", "LShift", "Mult")
               and (isinstance(x, (str, bytes, tuple)) or isinstance(y, (str, bytes, tuple)) or op != "Mult")
               and any(isinstance(z, int) and abs(z) > 4096 for z in (x, y)))
        if not big:
            try:
                return [(st, C(f(x, y)))]
            except Exception as ex:
                it.throw_named(st, type(ex).__name__, node, fr, explicit=False)
                return []
    except NotConst:
        pass
    if op == "Add" and (_strish(a) or _strish(b)):
        return [(st, it.fstr([a, b]))]
    if op == "Mod" and a.tag == "c" and isinstance(cval(a), str):
        v = percent(it, cval(a), b)
        if v is not None:
            return [(st, v)]
    if op == "Add" and a.tag == "tup" and b.tag == "tup":
        return [(st, T("tup", *(a.args + b.args)))]
    oa, ob = it.obj(st, a), it.obj(st, b)
    if op == "Add" and oa is not None and oa.kind == "list":
        t = it.alloc(st, oa.with_(), node)
        list_extend(it, st, t, b, node)
        return [(st, t)]
    if op == "Mult" and (oa is None) != (ob is None):
        o, m = (oa, b) if oa is not None else (ob, a)
        if o.kind == "list" and o.exact and m.tag == "c" and isinstance(cval(m), int) and cval(m) <= 4096:
            return [(st, it.alloc(st, o.with_(data=tuple(o.data) * max(cval(m), 0)), node))]
    if op == "Mult" and oa is not None and oa.kind == "list":
        return [(st, it.alloc(st, oa.with_(exact=False), node))]
    if op in ("Sub", "BitAnd") and oa is not None and oa.kind == "set":
        return [(st, set_filter(it, st, oa, b, op == "BitAnd", node))]
    if op == "BitOr" and oa is not None and oa.kind == "set":
        t = it.alloc(st, oa.with_(), node)
        set_update(it, st, t, b, node)
        return [(st, t)]
    if op == "BitOr" and oa is not None and oa.kind == "dict":
        t = it.alloc(st, oa.with_(), node)
        dict_update(it, st, t, b, node)
        return [(st, t)]
    return [(st, T("op", name, a, b))]


def set_filter(it, st, o, b, keep_in, node):
    """o - b, or o & b with keep_in."""
    from .interp import Obj
    coll = it.coll_term(b, st)
    data, exact = [], o.exact
    for v, conds in o.data:
        atom = T("cmp", "in", v, coll)
        r = it.decide(atom, st)
        if r is None:
            data.append((v, conds | {(atom, keep_in)}))
            exact = False
        elif r is keep_in:
            data.append((v, conds))
    return it.alloc(st, Obj("set", data=tuple(data), exact=exact), node)


def percent(it, fmt, b):
    args = list(b.args) if b.tag == "tup" else [b]
    parts, i, out = [], 0, []
    n = 0
    import re
    pos = 0
    for m in re.finditer(r"%(%|[-+ #0-9.]*[sdrxXioeEfFgGc])", fmt):
        parts.append(C(fmt[pos:m.start()]))
        pos = m.end()
        if m.group(1) == "%":
            parts.append(C("%"))
            continue
        if n >= len(args):
            return None
        conv = m.group(1)
        if conv == "s":
            parts.append(it.fmt(args[n], None, None))
        else:
            parts.append(T("fmt", args[n], -1, C("%" + conv)))
        n += 1
    parts.append(C(fmt[pos:]))
    if n != len(args):
        return None
    return it.fstr([p for p in parts if p is not C("")])


# ------------------------------------------------------- container methods


def dict_update(it, st, t, v, node):
    o = it.obj(st, t)
    p = it.obj(st, v)
    d = dict(o.data)
    if p is not None and p.kind == "dict":
        for k, (w, m) in p.data.items():
            if m or k not in d:
                d[k] = (w, m)
            else:
                d[k] = (join_terms([d[k][0], w]), d[k][1])
        it.put(st, t, o.with_(data=d, exact=o.exact and p.exact))
        return
    ex = it.exact_items(st, v)
    if ex is not None:
        ok = True
        for e in ex:
            if isinstance(e, tuple):
                e = e[0]
            if e.tag == "tup" and len(e.args) == 2:
                d[e.args[0]] = (e.args[1], True)
            else:
                ok = False
        it.put(st, t, o.with_(data=d, exact=o.exact and ok))
        return
    d[T("splat", v)] = (v, False)
    it.put(st, t, o.with_(data=d, exact=False))


def container_method(it, st, recv, kind, name, args, kw, node, fr):
    from .interp import Obj
    o = it.obj(st, recv)
    a = list(args)

    def opaque():
        return it.opaque_call(st, T("attr", recv, name), args, kw, node, fr)

    if kind == "idict":
        inst = it.obj(st, recv.args[0])
        if name == "update" and len(a) <= 1:
            new = dict(kw)
            if a:
                src = it.obj(st, a[0])
                if src is None or src.kind != "dict" or not src.exact or not all(is_c(k) for k in src.data):
                    return opaque()
                new = dict([(cval(k), v) for k, (v, m) in src.data.items()], **new)
            it.put_fields(st, recv.args[0], new)
            return [(st, NONE)]
        if name in ("get", "__getitem__") and a and is_c(a[0]) and cval(a[0]) in inst.data:
            return [(st, inst.data[cval(a[0])])]
        if name == "__setitem__" and len(a) == 2 and is_c(a[0]):
            it.put_fields(st, recv.args[0], {cval(a[0]): a[1]})
            return [(st, NONE)]
        return opaque()
    if kind == "list":
        if name == "append" and len(a) == 1:
            list_append(it, st, recv, a[0])
            return [(st, NONE)]
        if name == "extend" and len(a) == 1:
            # A generator or genexp has effects of its own.
            src = it.obj(st, a[0])
            if src is not None and src.kind in ("gen", "genexp") or _is_lazy(a[0]):
                out = []
                for x, lst in collect(it, st, a[0], node, fr, "list"):
                    list_extend(it, x, recv, lst, node)
                    out.append((x, NONE))
                return out
            list_extend(it, st, recv, a[0], node)
            return [(st, NONE)]
        if name == "insert" and len(a) == 2:
            try:
                k = pyval(a[0])
                l = list(o.data)
                l.insert(k, (a[1], it.cond_facts(st, a[1])))
                it.put(st, recv, o.with_(data=tuple(l)))
            except NotConst:
                it.put(st, recv, o.with_(data=o.data + ((a[1], it.cond_facts(st, a[1])),), exact=False))
            return [(st, NONE)]
        if name == "pop":
            if o.exact and o.data:
                try:
                    k = pyval(a[0]) if a else -1
                    l = list(o.data)
                    v = l.pop(k)
                    it.put(st, recv, o.with_(data=tuple(l)))
                    return [(st, v[0])]
                except (NotConst, IndexError, TypeError):
                    pass
            it.put(st, recv, o.with_(exact=False))
            vals = [x[0] for x in o.data]
            return [(st, join_terms(vals) if vals else T("item", recv, C(-1)))]
        if name in ("remove", "index", "count") and len(a) == 1 and o.exact and not any(x[1] for x in o.data):
            rs = [True if x[0] is a[0] else _eq_known(it, st, x[0], a[0]) for x in o.data]
            if None not in (rs[:rs.index(True)] if True in rs and name != "count" else rs):
                if name == "count":
                    return [(st, C(rs.count(True)))]
                if True not in rs:
                    it.throw_named(st, "ValueError", node, fr, explicit=False)
                    return []
                i = rs.index(True)
                if name == "index":
                    return [(st, C(i))]
                l = list(o.data)
                del l[i]
                it.put(st, recv, o.with_(data=tuple(l)))
                return [(st, NONE)]
        if name == "remove" and len(a) == 1:
            it.implicit(st, T("attr", recv, name), node, fr)
            it.put(st, recv, o.with_(exact=False))
            return [(st, NONE)]
        if name == "clear":
            it.put(st, recv, o.with_(data=(), exact=True))
            return [(st, NONE)]
        if name == "copy":
            return [(st, it.alloc(st, o.with_(), node))]
        if name == "reverse" and o.exact:
            it.put(st, recv, o.with_(data=o.data[::-1]))
            return [(st, NONE)]
        if name == "sort":
            it.put(st, recv, o.with_(exact=False))
            return [(st, NONE)]
        if name in ("index", "count"):
            return opaque_value(it, st, T("attr", recv, name), args, kw, node, fr)
        return opaque()
    if kind == "set":
        if name == "add" and len(a) == 1:
            set_add(it, st, recv, a[0])
            return [(st, NONE)]
        if name == "update":
            for x in a:
                set_update(it, st, recv, x, node)
            return [(st, NONE)]
        if name in ("discard", "remove") and len(a) == 1:
            if name == "remove":
                r = _in_known(it, st, a[0], it.coll_term(recv, st))
                if r is not True:
                    it.implicit(st, T("attr", recv, name), node, fr)
            data, exact = [], o.exact
            for v, c in o.data:
                r = it.decide(_eq(v, a[0]), st)
                if r is None:
                    data.append((v, c | {(_eq(v, a[0]), False)}))
                    exact = False
                elif r is False:
                    data.append((v, c))
            it.put(st, recv, o.with_(data=tuple(data), exact=exact))
            return [(st, NONE)]
        if name in ("difference", "intersection") and len(a) == 1:
            return [(st, set_filter(it, st, o, a[0], name == "intersection", node))]
        if name in ("difference_update", "intersection_update") and len(a) == 1:
            t = set_filter(it, st, o, a[0], name == "intersection_update", node)
            it.put(st, recv, it.obj(st, t))
            return [(st, NONE)]
        if name == "union":
            t = it.alloc(st, o.with_(), node)
            for x in a:
                set_update(it, st, t, x, node)
            return [(st, t)]
        if name == "copy":
            return [(st, it.alloc(st, o.with_(), node))]
        if name == "clear":
            it.put(st, recv, o.with_(data=(), exact=True))
            return [(st, NONE)]
        if name == "pop":
            it.put(st, recv, o.with_(exact=False))
            vals = [x[0] for x in o.data]
            return [(st, join_terms(vals) if vals else T("item", recv, C(0)))]
        if name in ("issubset", "issuperset", "isdisjoint"):
            if o.exact and len(a) == 1:
                p = _items_of(it, st, a[0])
                if p is not None and p[1]:
                    try:
                        x = {pyval(z[0]) for z in o.data}
                        y = {pyval(z[0]) for z in p[0]}
                        return [(st, C(getattr(x, name)(y)))]
                    except (NotConst, TypeError):
                        pass
            return opaque_value(it, st, T("attr", recv, name), args, kw, node, fr)
        return opaque()
    if kind == "dict":
        if name == "get" and a:
            dflt = a[1] if len(a) > 1 else dict((k, v) for k, v in kw).get("default", NONE)
            i = resolve(st, a[0])
            if i in o.data:
                v, must = o.data[i]
                return [(st, v if must else join_terms([v, dflt]))]
            if o.exact and all(k.tag in ("c", "tup", "ext", "cls") for k in o.data):
                out, live = [], True
                cand = [(k, v) for k, (v, m) in o.data.items() if it.decide(_eq(i, k), st) is not False]
                if len(cand) <= 12:
                    for k, v in cand:
                        x = st.fork()
                        if assume(it, x, _eq(i, k), True):
                            out.append((x, v))
                    for k, v in cand:
                        if not assume(it, st, _eq(i, k), False):
                            live = False
                            break
                    if live:
                        out.append((st, dflt))
                    return out
            vals = [T("item", recv, i), dflt]
            return [(st, join_terms(vals))]
        if name in ("items", "keys", "values") and not a:
            if name == "keys":
                return [(st, it.alloc(st, Obj("set", data=tuple((k, frozenset()) for k in o.data), exact=o.exact), node))]
            if name == "values":
                return [(st, it.alloc(st, Obj("list", data=tuple((v, frozenset()) for v, m in o.data.values()), exact=o.exact), node))]
            return [(st, it.alloc(st, Obj("list", data=tuple((T("tup", k, v), frozenset()) for k, (v, m) in o.data.items()), exact=o.exact), node))]
        if name == "update":
            for x in a:
                dict_update(it, st, recv, x, node)
            o = it.obj(st, recv)
            d = dict(o.data)
            for k, v in kw:
                if k is None:
                    dict_update(it, st, recv, v, node)
                    d = dict(it.obj(st, recv).data)
                else:
                    d[C(k)] = (v, True)
            it.put(st, recv, it.obj(st, recv).with_(data=d))
            return [(st, NONE)]
        if name == "setdefault" and a:
            i = resolve(st, a[0])
            if i in o.data and o.data[i][1]:
                return [(st, o.data[i][0])]
            v = a[1] if len(a) > 1 else NONE
            d = dict(o.data)
            if i in d:
                v = join_terms([d[i][0], v])
            d[i] = (v, True)
            it.put(st, recv, o.with_(data=d, exact=o.exact and i.tag in ("c", "tup", "ext", "cls")))
            return [(st, v)]
        if name == "pop" and a:
            i = resolve(st, a[0])
            d = dict(o.data)
            if i in d:
                v, must = d.pop(i)
                it.put(st, recv, o.with_(data=d))
                if not must:
                    if len(a) > 1:
                        v = join_terms([v, a[1]])
                    else:
                        _implicit_named(it, st, "KeyError", node, fr)
                return [(st, v)]
            if o.exact and len(a) > 1 and i.tag in ("c", "tup", "ext", "cls") and all(k.tag in ("c", "tup", "ext", "cls") for k in d):
                return [(st, a[1])]
            if len(a) == 1:
                _implicit_named(it, st, "KeyError", node, fr)
                if o.exact and i.tag == "c" and all(k.tag in ("c", "tup", "ext", "cls") for k in d):
                    return []
            it.put(st, recv, o.with_(exact=False))
            return [(st, join_terms([T("item", recv, i)] + a[1:2]))]
        if name == "copy":
            return [(st, it.alloc(st, o.with_(), node))]
        if name == "clear":
            it.put(st, recv, o.with_(data={}, exact=True))
            return [(st, NONE)]
        return opaque()
    if kind == "exitstack":
        if name == "enter_context" and a:
            v = a[0]
            r = it.prop.with_enter(it, st, v, node)
            if r is not None:
                for x, val in r:
                    it.put(x, recv, it.obj(x, recv).with_(data=it.obj(x, recv).data + (("ctx", v),)))
                return r
            oo = it.obj(st, v)
            if oo is not None and oo.kind == "inst":
                en = it.find_member(oo.cls, "__enter__")
                if isinstance(en, tuple):
                    out = []
                    for x, val in it.call(T("bm", v, it.fn_term(en)), [], [], st, node, fr):
                        it.put(x, recv, it.obj(x, recv).with_(data=it.obj(x, recv).data + (("inst", v),)))
                        out.append((x, val))
                    return out
            it.implicit(st, T("attr", v, "__enter__"), node, fr)
            it.put(st, recv, o.with_(data=o.data + (("ctx", v),)))
            return [(st, T("entered", v))]
        if name == "callback" and a:
            it.put(st, recv, o.with_(data=o.data + (("call", a[0], tuple(a[1:]), tuple(kw)),)))
            return [(st, a[0])]
        if name == "push" and a:
            it.put(st, recv, o.with_(data=o.data + (("ctx", a[0]),)))
            return [(st, a[0])]
        if name == "close":
            sts = it.unwind(st, recv, "n", node, fr)
            for x in sts:
                it.put(x, recv, it.obj(x, recv).with_(data=()))
            return [(x, NONE) for x in sts]
        if name == "pop_all":
            t = it.alloc(st, o.with_(), node)
            it.put(st, recv, o.with_(data=()))
            return [(st, t)]
        if name == "__enter__":
            return [(st, recv)]
        return opaque()
    return opaque()


def opaque_value(it, st, f, args, kw, node, fr):
    t = T("call", f, tuple(args), tuple(kw), "%d" % st.fresh())
    it.implicit(st, f, node, fr)
    return [(st, t)]


def _is_lazy(v):
    return (v.tag == "call" and v.args[0].tag == "ext"
            and v.args[0].args[0] in ("builtins.map", "builtins.filter"))


def collect(it, st, v, node, fr, kind):
    """Materialises an iterable into a fresh list or set object."""
    from .interp import Obj, Out
    acc = it.alloc(st, Obj(kind, data=()), node)

    def body(x, el):
        (list_append if kind == "list" else set_add)(it, x, acc, el)
        return [Out("n", x)]

    done, brk, other = it.iterate(v, st, node, fr, body)
    return [(x, acc) for x in it.merge(done + brk)]


def as_tuple(it, st, t):
    o = it.obj(st, t)
    if o is not None and o.exact and not any(x[1] for x in o.data):
        return T("tup", *[x[0] for x in o.data])
    return T("call", ext("builtins.tuple"), (t,), ())


# ---------------------------------------------------------------- ext calls

FOLD_BUILTINS = {
    "str", "int", "float", "bytes", "repr", "ord", "chr", "hex", "min", "max",
    "sum", "abs", "round", "divmod", "complex", "ascii", "pow", "bin", "oct",
    "hash",
}


def const_result(it, st, v, node):
    from .interp import Obj
    if isinstance(v, (list, set)):
        kind = "list" if isinstance(v, list) else "set"
        return it.alloc(st, Obj(kind, data=tuple((C(x), frozenset()) for x in v)), node)
    if isinstance(v, (str, bytes, int, float, complex, bool, type(None), tuple, range, pathlib.PurePath)):
        return C(v)
    return None


def deep_const(it, st, t):
    """Python value of constants and exact containers of constants."""
    t = resolve(st, t)
    if t.tag == "tup":
        return tuple(deep_const(it, st, x) for x in t.args)
    o = it.obj(st, t)
    if o is not None and o.exact:
        if o.kind == "list" and not any(x[1] for x in o.data):
            return [deep_const(it, st, x[0]) for x in o.data]
        if o.kind == "set" and not any(x[1] for x in o.data):
            return {deep_const(it, st, x[0]) for x in o.data}
        if o.kind == "dict" and all(m for _, m in o.data.values()):
            return {deep_const(it, st, k): deep_const(it, st, v) for k, (v, m) in o.data.items()}
    return pyval(t)


def ext_call(it, st, f, args, kw, node, fr):
    from .interp import Obj, Out
    a = list(args)
    if f.tag == "ext" and f.args[0].startswith("re.") or f.tag == "attr" and f.args[0].tag in ("re", "match"):
        r = strings.call(it, st, f, a, kw, node, fr)
        if r is not None:
            return r
    if f.tag == "ext":
        n = f.args[0]
        if n.startswith("builtins."):
            b = n[9:]
            h = globals().get("b_" + b)
            if h is not None:
                r = h(it, st, f, a, kw, node, fr)
                if r is not None:
                    return r
            if is_exc_name(n):
                return [(st, T("call", f, tuple(a), tuple(kw)))]
            if b in FOLD_BUILTINS and not any(k is None for k, _ in kw):
                try:
                    vals = [deep_const(it, st, x) for x in a]
                    kv = {k: deep_const(it, st, x) for k, x in kw}
                    try:
                        v = getattr(builtins, b)(*vals, **kv)
                    except Exception as ex:
                        it.throw_named(st, type(ex).__name__, node, fr, explicit=False)
                        return []
                    r = const_result(it, st, v, node)
                    if r is not None:
                        return [(st, r)]
                except NotConst:
                    pass
        elif n.startswith("posixpath."):
            fn = getattr(posixpath, n[10:], None)
            if fn is not None and n[10:] in PATH_PURE - {"relpath"}:
                try:
                    vals = [deep_const(it, st, x) for x in a]
                    try:
                        v = fn(*vals)
                    except Exception as ex:
                        it.throw_named(st, type(ex).__name__, node, fr, explicit=False)
                        return []
                    r = const_result(it, st, v, node)
                    if r is not None:
                        return [(st, r)]
                except NotConst:
                    pass
        elif n in ("pathlib.PurePosixPath", "pathlib.PureWindowsPath", "pathlib.PurePath", "os.fspath", "os.fsdecode", "os.fsencode") and not kw:
            try:
                vals = [deep_const(it, st, x) for x in a]
                try:
                    v = getattr(os if n.startswith("os.") else pathlib, n.split(".")[1])(*vals)
                except Exception as ex:
                    it.throw_named(st, type(ex).__name__, node, fr, explicit=False)
                    return []
                return [(st, C(v))]
            except NotConst:
                pass
        elif n == "inspect.isclass" and len(a) == 1:
            if a[0].tag == "cls" or a[0].tag == "ext" and class_names(a[0].args[0]):
                return [(st, TRUE)]
            if a[0].tag in ("c", "fn", "tup", "mod", "bm"):
                return [(st, FALSE)]
        elif n == "inspect.getmro" and len(a) == 1 and a[0].tag == "cls":
            return [(st, mro_term(it, a[0].args[0]))]
        elif n == "contextlib.ExitStack":
            return [(st, it.alloc(st, Obj("exitstack", data=()), node))]
        elif n == "functools.partial" and a:
            return [(st, T("partial", a[0], tuple(a[1:]), tuple(kw)))]
        elif n == "copy.copy" or n == "copy.deepcopy":
            o = it.obj(st, a[0]) if a else None
            if o is not None and n == "copy.copy":
                return [(st, it.alloc(st, o.with_(), node))]
            if a and a[0].tag in ("c", "tup", "ext", "cls", "fn"):
                return [(st, a[0])]
        elif n in ("collections.OrderedDict", "collections.abc.OrderedDict"):
            return b_dict(it, st, f, a, kw, node, fr)
        elif n == "collections.defaultdict":
            out = []
            for x, t in b_dict(it, st, f, a[1:], kw, node, fr):
                it.put(x, t, it.obj(x, t).with_(extra=("default", a[0] if a else NONE)))
                out.append((x, t))
            return out
        elif n == "itertools.chain":
            items, exact, ok = [], True, True
            for x in a:
                r = _items_of(it, st, x)
                if r is None:
                    ok = False
                    break
                items += list(r[0])
                exact = exact and r[1]
            if ok:
                return [(st, it.alloc(st, Obj("list", data=tuple(items), exact=exact), node))]
        elif n == "itertools.product":
            exs = [it.exact_items(st, x) for x in a]
            if a and not kw and all(e is not None for e in exs):
                import itertools
                tot = 1
                for e in exs:
                    tot *= len(e)
                if tot <= 64:
                    items = tuple((T("tup", *[y[0] if isinstance(y, tuple) else y for y in c]), frozenset()) for c in itertools.product(*exs))
                    return [(st, it.alloc(st, Obj("list", data=items), node))]
        elif n.startswith("operator.") and n[9:] in ("eq", "ne", "lt", "le", "gt", "ge", "is_", "is_not", "not_", "truth", "contains", "getitem") and a:
            m = n[9:]
            cmpn = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}.get(m)
            if cmpn and len(a) == 2:
                return [(st, it.compare(cmpn, a[0], a[1], st, node, fr))]
            if m == "contains" and len(a) == 2:
                return it.contains(a[1], a[0], st, node, fr)
            if m == "getitem" and len(a) == 2:
                return it.get_item(st, a[0], a[1], node, fr)
        elif n == "typing.cast" and len(a) == 2:
            return [(st, a[1])]
    if f.tag == "attr":
        base, m = f.args
        base = resolve(st, base)
        if m == "join" and len(a) == 1 and is_c(base):
            oj = it.obj(st, a[0])
            if _is_lazy(a[0]) or oj is not None and oj.kind in ("gen", "genexp"):
                out = []
                for x, v in collect(it, st, a[0], node, fr, "list"):
                    out.extend(ext_call(it, x, f, [v], kw, node, fr))
                return out
        if m == "join" and len(a) == 1 and is_c(base) and isinstance(cval(base), str):
            ex = it.exact_items(st, a[0])
            if ex is not None and not any(isinstance(e, tuple) for e in ex):
                parts = []
                for i, e in enumerate(ex):
                    if i:
                        parts.append(base)
                    parts.append(e)
                if all(_strish(p) or p.tag not in ("c",) for p in parts):
                    return [(st, it.fstr([p for p in parts if not (is_c(p) and cval(p) == "")]))]
        if m == "format" and is_c(base) and isinstance(cval(base), str):
            v = str_format(it, st, cval(base), a, kw)
            if v is not None:
                return [(st, v)]
        if base.tag == "c" and m in PURE_METHODS | {"to_bytes", "bit_length", "fromhex", "translate", "removeprefix", "removesuffix", "splitlines", "isascii", "isprintable", "isspace", "joinpath", "is_absolute", "with_name", "relative_to", "hex", "isnumeric", "isdecimal", "isupper", "islower", "expandtabs", "center", "rfind", "rindex", "rpartition", "splitlines"}:
            try:
                vals = [deep_const(it, st, x) for x in a]
                kv = {k: deep_const(it, st, x) for k, x in kw}
                try:
                    v = getattr(cval(base), m)(*vals, **kv)
                except Exception as ex:
                    it.throw_named(st, type(ex).__name__, node, fr, explicit=False)
                    return []
                r = const_result(it, st, v, node)
                if r is not None:
                    return [(st, r)]
            except NotConst:
                pass
    return it.opaque_call(st, f, args, kw, node, fr)


def str_format(it, st, fmt, a, kw):
    import string
    parts, auto = [], 0
    kd = dict((k, v) for k, v in kw)
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in kd:
                v = kd[field]
            else:
                return None
            parts.append(it.fmt(v, ord(conv) if conv else None, C(spec) if spec else None))
    except (ValueError, IndexError):
        return None
    return it.fstr(parts)


def b_len(it, st, f, a, kw, node, fr):
    if len(a) != 1:
        return None
    x = resolve(st, a[0])
    if x.tag == "tup":
        if any(y.tag == "star" for y in x.args):
            return None
        return [(st, C(len(x.args)))]
    if x.tag == "c":
        try:
            return [(st, C(len(cval(x))))]
        except TypeError:
            it.throw_named(st, "TypeError", node, fr, explicit=False)
            return []
    o = it.obj(st, x)
    if o is not None and o.kind in ("list", "set", "dict"):
        if o.exact:
            return [(st, C(len(o.data)))]
    if o is not None and o.kind == "inst":
        m = it.find_member(o.cls, "__len__")
        if isinstance(m, tuple) and m[0] == "fn":
            return it.call(T("bm", x, it.fn_term(m)), [], [], st, node, fr)
    return None


def b_isinstance(it, st, f, a, kw, node, fr):
    if len(a) != 2:
        return None
    c = a[1]
    o = it.obj(st, c)
    if o is not None and o.kind == "list":
        return None
    if a[0].tag == "phi":
        rs = {it.decide(T("isinst", x, c), st) for x in alts(a[0]) if x is not UNBOUND}
        if len(rs) == 1 and None not in rs:
            return [(st, C(rs.pop()))]
    t = T("isinst", a[0], c)
    d = it.decide(t, st)
    return [(st, t if d is None else C(d))]


def b_issubclass(it, st, f, a, kw, node, fr):
    if len(a) == 2:
        r = cls_is_subclass(it, resolve(st, a[0]), a[1])
        if r is not None:
            return [(st, C(r))]
    return None


def b_type(it, st, f, a, kw, node, fr):
    if len(a) == 1:
        t = type_of(it, st, a[0])
        if t is not None:
            return [(st, t)]
    return None


def b_bool(it, st, f, a, kw, node, fr):
    if len(a) == 0:
        return [(st, FALSE)]
    if len(a) == 1:
        d = it.truth(a[0], st)
        if d is not None:
            return [(st, C(d))]
        if a[0].tag in ("cmp", "isinst", "hasattr", "truth", "not"):
            return [(st, a[0])]
        return [(st, T("truth", a[0]))]
    return None


def _mk(kind):
    def h(it, st, f, a, kw, node, fr):
        from .interp import Obj
        k = {"list": "list", "sorted": "list", "reversed": "list", "tuple": "list",
             "set": "set", "frozenset": "set"}[kind]
        if not a:
            if kind == "tuple":
                return [(st, T("tup"))]
            return [(st, it.alloc(st, Obj(k, data=()), node))]
        v = a[0]
        o = it.obj(st, v)
        lazy = _is_lazy(v) or (o is not None and o.kind in ("gen", "genexp", "inst"))
        if v.tag == "tup" and kind == "tuple":
            return [(st, v)]
        if is_c(v) and kind == "tuple":
            try:
                return [(st, C(tuple(cval(v))))]
            except TypeError:
                return None
        if lazy or it.exact_items(st, v) is not None or (o is not None and o.kind in ("list", "set", "dict")):
            if not lazy and o is not None and o.kind in ("list", "set", "dict") and not o.exact:
                data = o.data if o.kind != "dict" else tuple((x, frozenset()) for x in o.data)
                return [(st, it.alloc(st, Obj(k, data=data, exact=False), node))]
            out = []
            for x, t in collect(it, st, v, node, fr, k):
                oo = it.obj(x, t)
                if kind == "reversed" and oo.exact:
                    it.put(x, t, oo.with_(data=oo.data[::-1]))
                if kind == "sorted":
                    try:
                        vals = sorted(pyval(z[0]) for z in oo.data)
                        if oo.exact and not kw:
                            it.put(x, t, oo.with_(data=tuple((C(z), frozenset()) for z in vals)))
                        else:
                            it.put(x, t, oo.with_(exact=False))
                    except (NotConst, TypeError):
                        if len(oo.data) > 1:
                            it.put(x, t, oo.with_(exact=False))
                if kind == "tuple":
                    t = as_tuple(it, x, t)
                out.append((x, t))
            return out
        return None
    return h


b_list, b_tuple, b_set = _mk("list"), _mk("tuple"), _mk("set")
b_sorted, b_reversed = _mk("sorted"), _mk("reversed")


def b_frozenset(it, st, f, a, kw, node, fr, make=_mk("frozenset")):
    res = make(it, st, f, a, kw, node, fr)
    for x, t in res or ():
        o = it.obj(x, t)
        if o is not None and o.kind == "set":
            it.put(x, t, o.with_(cls=ext("builtins.frozenset")))
    return res


def b_dict(it, st, f, a, kw, node, fr):
    from .interp import Obj
    t = it.alloc(st, Obj("dict", data={}, cls=f if f.args[0] != "builtins.dict" else None), node)
    if a:
        v = a[0]
        o = it.obj(st, v)
        if o is not None and o.kind in ("gen", "genexp") or _is_lazy(v):
            res = collect(it, st, v, node, fr, "list")
        else:
            res = [(st, v)]
    else:
        res = [(st, None)]
    out = []
    for x, v in res:
        if v is not None:
            dict_update(it, x, t, v, node)
        for k, w in kw:
            if k is None:
                dict_update(it, x, t, w, node)
            else:
                o = it.obj(x, t)
                d = dict(o.data)
                d[C(k)] = (w, True)
                it.put(x, t, o.with_(data=d))
        out.append((x, t))
    return out


def b_zip(it, st, f, a, kw, node, fr):
    from .interp import Obj
    exs = [it.exact_items(st, x) for x in a]
    if a and all(e is not None for e in exs):
        exs = [[y[0] if isinstance(y, tuple) else y for y in e] for e in exs]
        items = tuple((T("tup", *z), frozenset()) for z in zip(*exs))
        return [(st, it.alloc(st, Obj("list", data=items), node))]
    return None


def b_enumerate(it, st, f, a, kw, node, fr):
    from .interp import Obj
    if not a:
        return None
    o = it.obj(st, a[0])
    if o is not None and o.kind in ("gen", "genexp"):
        res = collect(it, st, a[0], node, fr, "list")
    else:
        res = [(st, a[0])]
    out = []
    for x, v in res:
        ex = it.exact_items(x, v)
        s = a[1] if len(a) > 1 else dict((k, w) for k, w in kw).get("start", C(0))
        if ex is not None and is_c(s):
            items = tuple(
                (T("tup", C(cval(s) + i), e[0] if isinstance(e, tuple) else e),
                 e[1] if isinstance(e, tuple) else frozenset())
                for i, e in enumerate(ex))
            out.append((x, it.alloc(x, Obj("list", data=items), node)))
        else:
            out.append((x, T("call", f, (v,) + tuple(a[1:]), tuple(kw))))
    return out


def b_range(it, st, f, a, kw, node, fr):
    try:
        return [(st, C(range(*[pyval(resolve(st, x)) for x in a])))]
    except (NotConst, TypeError, ValueError):
        return None


def _anyall(is_any):
    def h(it, st, f, a, kw, node, fr):
        from .interp import Out
        if len(a) != 1:
            return None

        def body(x, el):
            t, fl = it.test(el, x)
            out = []
            if t is not None:
                out.append(Out("brk" if is_any else "n", t))
            if fl is not None:
                out.append(Out("n" if is_any else "brk", fl))
            return out

        o = it.obj(st, a[0])
        if o is None and it.exact_items(st, a[0]) is None and not _is_lazy(a[0]):
            return None
        done, brk, other = it.iterate(a[0], st, node, fr, body)
        return [(x, C(not is_any)) for x in done] + [(x, C(is_any)) for x in brk]
    return h


b_any, b_all = _anyall(True), _anyall(False)


def b_next(it, st, f, a, kw, node, fr):
    from .interp import Out
    if not a:
        return None
    v = a[0]
    if v.tag == "call" and v.args[0] is ext("builtins.iter") and len(v.args[1]) == 1:
        v = v.args[1][0]
    o = it.obj(st, v)
    if o is None and it.exact_items(st, v) is None and not _is_lazy(v):
        uid = "%d@%s" % (st.fresh(), it.here(node))
        x = st.fork()
        if len(a) == 1:
            _implicit_named(it, st, "StopIteration", node, fr)
            return [(st, it.elem_of(st, v, uid))]
        return [(x, it.elem_of(x, v, uid)), (st, a[1])]
    if o is not None and o.kind in ("list", "set", "dict") and v is a[0]:
        return None
    hold = []

    def body(x, el):
        x.vars[("<next>", "v")] = el
        return [Out("brk", x)]

    done, brk, other = it.iterate(v, st, node, fr, body)
    out = [(x, x.vars.pop(("<next>", "v"))) for x in brk]
    for x in done:
        x.vars.pop(("<next>", "v"), None)
        if len(a) > 1:
            out.append((x, a[1]))
        else:
            it.throw_named(x, "StopIteration", node, fr, explicit=False)
    return out


def b_getattr(it, st, f, a, kw, node, fr):
    if len(a) >= 2 and is_c(a[1]) and isinstance(cval(a[1]), str):
        if len(a) == 2:
            return it.get_attr(st, a[0], cval(a[1]), node, fr)
        h = it.decide(T("hasattr", a[0], a[1]), st)
        if h is True:
            return it.get_attr(st, a[0], cval(a[1]), node, fr)
        if h is False:
            return [(st, a[2])]
        r = it.get_attr(st, a[0], cval(a[1]), node, fr)
        return [(x, join_terms([v, a[2]])) for x, v in r]
    if len(a) >= 2:
        return it.opaque_call(st, f, a, kw, node, fr, pure=True)
    return None


def b_vars(it, st, f, a, kw, node, fr):
    if len(a) == 1:
        o = it.obj(st, a[0])
        if o is not None and o.kind == "inst":
            return [(st, T("idict", a[0]))]
    return it.opaque_call(st, f, a, kw, node, fr)


def b_setattr(it, st, f, a, kw, node, fr):
    if len(a) == 3 and is_c(a[1]) and isinstance(cval(a[1]), str):
        return [(x, NONE) for x in it.set_attr(st, a[0], cval(a[1]), a[2], node, fr)]
    return None


def b_hasattr(it, st, f, a, kw, node, fr):
    if len(a) == 2:
        t = T("hasattr", a[0], a[1])
        d = it.decide(t, st)
        return [(st, t if d is None else C(d))]
    return None


def b_str(it, st, f, a, kw, node, fr):
    if len(a) == 1 and not kw and a[0].tag == "fstr":
        return [(st, a[0])]
    if not a:
        return [(st, C(""))]
    return None


def b_callable(it, st, f, a, kw, node, fr):
    if len(a) == 1 and a[0].tag in ("fn", "cls", "bm", "partial"):
        return [(st, TRUE)]
    return None


def b_print(it, st, f, a, kw, node, fr):
    return [(st, NONE)]
