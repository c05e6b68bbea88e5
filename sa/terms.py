"""Interned symbolic values (terms) of the abstract domain.

A term is an immutable, interned node (tag, args).  Two terms are the same
Python object iff they are structurally equal, so identity is value numbering.
"""


class Term:
    __slots__ = ("tag", "args", "idx", "leaf", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}


def T(tag, *args):
    key = (tag,) + tuple(
        (type(a).__name__, a) if not isinstance(a, Term) else a for a in args
    )
    t = _table.get(key)
    if t is None:
        t = Term()
        t.tag = tag
        t.args = args
        t.idx = len(_table)
        t.leaf = _leaves(tag, args, t)
        _table[key] = t
    return t


_EMPTY = frozenset()


def _leaves(tag, args, t):
    """Loop elements a term depends on."""
    out = _EMPTY
    for a in args:
        if isinstance(a, Term):
            if a.leaf:
                out = out | a.leaf
        elif isinstance(a, (tuple, frozenset)):
            for b in a:
                if isinstance(b, Term):
                    if b.leaf:
                        out = out | b.leaf
                elif isinstance(b, tuple):
                    for y in b:
                        if isinstance(y, Term) and y.leaf:
                            out = out | y.leaf
    if tag in ("iter", "key", "val", "idx"):
        out = out | {t}
    return out


def C(v):
    """Constant.  Tuples become tuple terms, other values atomic constants."""
    if isinstance(v, tuple):
        return T("tup", *[C(x) for x in v])
    return T("c", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
UNBOUND = T("unbound")


def is_c(t):
    return t.tag == "c"


def cval(t):
    return t.args[0]


def is_c_value(t, v):
    return t.tag == "c" and type(t.args[0]) is type(v) and t.args[0] == v


class NotConst(Exception):
    pass


def pyval(t):
    """Python value of a constant term (tuples included)."""
    if t.tag == "c":
        return t.args[0]
    if t.tag == "tup":
        return tuple(pyval(a) for a in t.args)
    raise NotConst(t)


def pyval_or(t, default=None):
    try:
        return pyval(t)
    except NotConst:
        return default


def ext(name):
    return T("ext", name)


def sym(name):
    return T("sym", name)


def walk(t, _seen=None):
    """All sub terms of a term (itself included)."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)
            elif isinstance(a, (tuple, frozenset)):
                for b in a:
                    if isinstance(b, Term):
                        stack.append(b)
                    elif isinstance(b, tuple):
                        stack.extend(y for y in b if isinstance(y, Term))


def mentions(t, what):
    return any(x is what for x in walk(t))


def mentions_any(t, whats):
    whats = set(whats)
    return any(x in whats for x in walk(t))


def join_terms(ts, limit=8):
    flat = []
    for t in ts:
        if t.tag == "phi":
            for x in t.args[0]:
                if x not in flat:
                    flat.append(x)
        elif t not in flat:
            flat.append(t)
    if len(flat) == 1:
        return flat[0]
    if len(flat) > limit:
        flat = flat[:limit]
        top = T("top")
        if top not in flat:
            flat.append(top)
    return T("phi", frozenset(flat))


def alts(t):
    """Alternatives of a possibly joined value."""
    if t.tag == "phi":
        return tuple(sorted(t.args[0], key=lambda x: x.idx))
    return (t,)


_OPS = {
    "add": "+", "sub": "-", "mul": "*", "div": "/", "floordiv": "//", "mod": "%",
    "eq": "==", "lt": "<", "in": "in", "is": "is", "bitand": "&", "bitor": "|",
    "pow": "**", "xor": "^", "lshift": "<<", "rshift": ">>", "matmul": "@",
}


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 6:
        return "..."
    g, a = t.tag, t.args
    s = lambda x: show(x, depth + 1)
    if g == "c":
        return repr(a[0])
    if g == "ext":
        return a[0][len("builtins."):] if a[0].startswith("builtins.") else a[0]
    if g == "sym":
        return a[0]
    if g == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if g == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if g == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if g == "tup":
        return "(" + ", ".join(s(x) for x in a) + ("," if len(a) == 1 else "") + ")"
    if g == "call":
        parts = [s(x) for x in a[1]] + [
            ("**" if k is None else k + "=") + s(v) for k, v in a[2]
        ]
        return "%s(%s)" % (s(a[0]), ", ".join(parts))
    if g in ("op", "cmp"):
        return "(" + (" %s " % _OPS.get(a[0], a[0])).join(s(x) for x in a[1:]) + ")"
    if g == "not":
        return "not " + s(a[0])
    if g == "isinst":
        return "isinstance(%s, %s)" % (s(a[0]), s(a[1]))
    if g == "truth":
        return "bool(%s)" % s(a[0])
    if g == "iter":
        return "<element of %s>" % s(a[0])
    if g == "key":
        return "<key of %s>" % s(a[0])
    if g == "val":
        return "<value of %s>" % s(a[0])
    if g == "phi":
        return "{" + " | ".join(s(x) for x in alts(t)) + "}"
    if g == "fstr":
        return "f'" + "".join(
            x.args[0] if x.tag == "c" and isinstance(x.args[0], str) else "{%s}" % s(x)
            for x in a
        ) + "'"
    if g == "fn":
        return "<function %s>" % a[0]
    if g == "cls":
        return "<class %s>" % a[0]
    if g == "bm":
        return "%s.<%s>" % (s(a[0]), s(a[1]))
    if g == "obj":
        return "<object %s>" % (a[0],)
    return "%s(%s)" % (g, ", ".join(show(x, depth + 1) for x in a))
