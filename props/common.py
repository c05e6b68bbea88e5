"""Things several rule modules use."""

from sa.interp import Exc, Interp, Obj, Property, State
from sa.loader import AnalysisBroken, PropInfo
from sa.terms import (
    C, FALSE, NONE, NotConst, T, TRUE, UNBOUND, alts, cval, ext, is_c,
    join_terms, mentions, pyval, pyval_or, show, sym, walk, Term,
)
from sa.core import fn, typed

FILE = "hdf5storage.File"
OPTIONS = "hdf5storage.Options"
MC = "hdf5storage.MarshallerCollection"
LLF = "hdf5storage.utilities.LowLevelFile"
PROCESS = "hdf5storage.pathesc.process_path"
TM = "hdf5storage.Marshallers.TypeMarshaller"

LOCKS = {"threading.Lock", "threading.RLock", "threading.Condition",
         "threading.Semaphore", "threading.BoundedSemaphore"}
REENTRANT = {"threading.RLock"}
H5FILE = ext("h5py.File")

# Calls whose result holds no handle of the file any more.
MATERIALISE = {"len", "list", "tuple", "set", "frozenset", "sorted", "bool",
               "str", "repr", "isinstance", "type", "id", "hash", "any", "all",
               "sum", "min", "max", "dict", "int", "bytes"}
LAZY = {"iter", "map", "filter", "zip", "enumerate", "reversed"}
PLAIN_ATTRS = {"userblock_size", "filename", "mode", "name", "driver", "libver",
               "swmr_mode", "shape", "dtype", "size", "ndim", "chunks",
               "compression", "compression_opts", "shuffle", "fletcher32", "nbytes"}

_h5 = {}


def is_lock(t):
    return t.tag == "call" and t.args[0].tag == "ext" and t.args[0].args[0] in LOCKS


def is_reentrant(t):
    return t.args[0].args[0] in REENTRANT


def is_handle(t):
    return t.tag == "call" and t.args[0] is H5FILE


def h5ish(t):
    """Is the value a handle of the file or does it read from one lazily?"""
    r = _h5.get(t)
    if r is None:
        _h5[t] = False
        r = _h5[t] = _h5ish(t)
    return r


def _h5ish(t):
    g, a = t.tag, t.args
    if g == "h5":
        return True
    if g == "phi":
        return any(h5ish(x) for x in a[0])
    if g == "entered":
        return h5ish(a[0])
    if g == "attr":
        return h5ish(a[0]) and a[1] not in PLAIN_ATTRS
    if g in ("item", "val"):
        return h5ish(a[0])
    if g == "tup":
        return any(h5ish(x) for x in a)
    if g == "call":
        f = a[0]
        if f is H5FILE:
            return True
        if f.tag == "attr":
            return h5ish(f.args[0]) and f.args[1] not in ("close", "flush")
        if f.tag == "ext":
            n = f.args[0]
            b = n[9:] if n.startswith("builtins.") else None
            if b in MATERIALISE:
                return False
            if b in LAZY or n.startswith("itertools."):
                return any(h5ish(x) for x in a[1])
        return False
    if g == "partial":
        return h5ish(a[0]) or any(h5ish(x) for x in a[1])
    if g == "bm":
        return h5ish(a[0])
    return False


def obj_of(it, st, cls, lazy=None, data=None):
    return it.alloc(st, Obj("inst", cls=cls, data=dict(data or {}), lazy=lazy))


def class_functions(it, cls, skip=()):
    """(name, function term, FuncInfo, kind) of the methods of a class."""
    out, seen = [], set()
    for c in it.mro(cls):
        for name, m in it.prog.classes[c].members.items():
            if name in seen or name in skip:
                continue
            seen.add(name)
            if isinstance(m, PropInfo):
                for k in ("fget", "fset", "fdel"):
                    f = getattr(m, k)
                    if f is not None:
                        out.append((name, f, k))
            elif isinstance(m, tuple) and m[0] == "fn":
                out.append((name, m[1], "method"))
    return out


def sym_args(fi, skip_first=True, over=None):
    over = over or {}
    names = fi.params[1:] if skip_first else fi.params
    args = [over.get(n, sym(n)) for n in names]
    if fi.vararg:
        args.append(T("star", sym(fi.vararg)))
    kw = [(k, over.get(k, sym(k))) for k in fi.kwonly]
    return args, kw


def deep_values(it, st, t, seen=None):
    """All terms reachable from a value through containers and instances."""
    seen = seen if seen is not None else set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.tag == "phi":
            todo.extend(x.args[0])
        elif x.tag == "tup":
            todo.extend(x.args)
        elif x.tag == "call" and x.args[0].tag == "ext":
            n = x.args[0].args[0]
            if n[:9] == "builtins." and n[9:] in LAZY or n.startswith("itertools."):
                todo.extend(x.args[1])
        o = it.obj(st, x)
        if o is not None:
            if o.kind in ("list", "set"):
                todo.extend(v[0] for v in o.data)
            elif o.kind == "dict":
                todo.extend(v for v, m in o.data.values())
                todo.extend(o.data)
            elif o.kind == "inst":
                todo.extend(v for v in o.data.values())


def explicit_name(e):
    return e.name if e.explicit else None


def options_objects(ctx, **kw):
    """[(state, Options object)] made by the constructor with the settings."""
    def build(it):
        return State(), [], [(k, v if isinstance(v, Term) else C(v)) for k, v in kw.items()]
    it, prop, rets, raises = ctx.run(T("cls", OPTIONS), Property, build)
    if not rets:
        raise AnalysisBroken("the Options constructor never returns")
    out = []
    for st, o in rets:
        st.trace = None
        st.p.clear()
        out.append((st, o))
    return out
