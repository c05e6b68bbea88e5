"""Rules about escaping and processing paths (C24, C25).

The functions are interpreted on words over the letters their source can tell
apart: the separator, the null, the backslash, the period, the letters of the
escapes, hex digits, one letter for all others outside of ASCII and every
single character their constants name.
"""

import itertools
import pathlib
import posixpath
import re

from .common import *

ESC = "hdf5storage.pathesc.escape_path"
UNESC = "hdf5storage.pathesc.unescape_path"
MOD = "hdf5storage.pathesc"
LETTERS = ["\\", "/", "\0", ".", "x", "u", "2", "f", "g", "\u03b1"]


class StrWorld(Property):
    cap = 64

    def may_raise(self, it, st, f, n):
        return False


def run1(ctx, f, *args):
    """(value or None, exception name or None) when there's one outcome."""
    r = ctx.attempt("%s of %r" % (f, args), fn(f), StrWorld, lambda it: (State(), [C(a) for a in args], []))
    if r is None:
        return None
    it, prop, rets, raises = r
    if len(rets) + len(raises) != 1:
        return None
    if raises:
        e = raises[0][1]
        return ("raise", e.name, e.site)
    st, v = rets[0]
    try:
        return ("value", pyval(v), show(v))
    except NotConst:
        pass
    return None


def extra_letters(ctx):
    """Single characters in constants of the module that aren't in LETTERS."""
    import ast
    out = []
    m = ctx.prog.modules[MOD]
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and len(n.value) == 1:
            v = n.value if isinstance(n.value, str) else n.value.decode("latin-1")
            if v not in LETTERS and v not in out:
                out.append(v)
    return out


def decode(s):
    """The name an escaped one stands for, or None when it's invalid."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        k = s[i + 1:i + 2]
        if k == "\\":
            out.append("\\")
            i += 2
            continue
        n = {"x": 2, "u": 4, "U": 8}.get(k)
        h = s[i + 2:i + 2 + n] if n else ""
        if not n or not re.fullmatch("[0-9a-fA-F]{%d}" % n, h) or int(h, 16) > 0x10FFFF:
            return None
        out.append(chr(int(h, 16)))
        i += 2 + n
    return "".join(out)


FIXED = [
    "....", ".a.", "...a/b", "a\\x2fb", "\\x2e", "\\\\x2e", "\\\\\\x2e", "\\u002f", "\\U0000002f", "\\\\\\\\",
    "/\\/\\/", "\0\0\0", "a/b/c\0", "\\/", "/\\", "\\.", ".\\", "./", "x2f", "\\xZZ", "\U0001f600", "\n", "\\\n", "a\n", ".\n",
    "\ud800", " ", "a b", "\x7f", "\x01", "%2f", "~", "\\x", "\\u1", "\\5c", "\\x5c\\x5c", "abcdefghijklmnop/qrstuv", "a" * 300 + "/",
]
ENCODED = [
    "\\x5c", "\\x5c\\x5c", "\\x5c\\\\", "\\\\\\x5c", "\\x5cx2f", "\\x2F", "\\u002F", "\\U0000002F", "\\u005c", "\\U0000005C\\x5c",
    "\\x2f\\x2f", "\\\\x2f", "\\\\\\x2f", "\\\\\\\\x2f", "\\\\\\\\\\x2f", "\\u03b1", "\\U0001f600", "\\x00", "a\\x00b",
    "\\x2fa", "\\x2f2f", "\\u002f2f", "\\U0000002f2f", "\\xe9", "\\xff\\xfe", "\\\\\\\\", "\\\\\\\\\\\\", "a\\\\b\\\\", "\\\\\\x5c\\\\",
]
INVALID = [
    "\\", "a\\", "\\\\\\", "\\q", "\\x", "\\x2", "\\x2g", "\\u", "\\u002", "\\u002g", "\\U", "\\U0000002", "\\U0000002g", "\\n", "\\0",
    "\\/", "\\.", "\\\\\\q", "\\X41", "a\\ ", "\\x2f\\", "\\x2f\\q", "\\\\\\x2", "\\ufff", "\\U00110000", "\\uDEF", "\\xg2", "\\\n", "\\x2\n",
]


# What may come before an escape: line ends, digits, marks, characters of other planes.
BEFORE = ["\n", "\r", "\x85", "\u2028", "\0", "/", ".", " ", "\t", "0", "a", "x", "u", "U", "_", "\xe9", "\U0001f600", "\ud800", "\n\n", "a\nb", "\\\\", "\\\\\n"]


def words(ctx, letters, n):
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            yield "".join(w)


def lengths(ctx):
    """Lengths the module's constants can tell apart, and some of note."""
    import ast
    out = {1, 2, 5, 9, 17, 33, 65, 129, 256, 300, 1025}
    for n in ast.walk(ctx.prog.modules[MOD].tree):
        if isinstance(n, ast.Constant) and type(n.value) is int and 1 < n.value < 2000:
            out |= {n.value - 1, n.value, n.value + 1}
    return sorted(out)


def long_words(ctx, letters):
    for k in lengths(ctx):
        for a in letters:
            yield a * k
            yield a * k + "a/b\\"
            yield "a" + a * k
        yield "a/" * k
        yield "." * k + "/" * k


def check_c24(ctx):
    ctx.rule("inverse", "unescaping the escaped name gives the name back")
    ctx.rule("escaped-form", "an escaped name has no slash, no null and no leading period, and is made without failing")
    ctx.rule("decode", "a valid escaped name is unescaped from left to right, nothing else in it changes")
    ctx.rule("invalid", "an invalid escape raises a ValueError")
    ctx.rule("kinds", "bytes are taken as UTF-8, anything but str and bytes raises a TypeError")
    for f in (ESC, UNESC):
        if f not in ctx.prog.funcs:
            raise AnalysisBroken("no function " + f)
    letters = LETTERS + extra_letters(ctx)[:4]
    n = 4 if ctx.tier == "thorough" else 3
    open_ = 0
    for w in itertools.chain(FIXED, words(ctx, letters, n), long_words(ctx, letters)):
        ctx.count("names escaped")
        r = run1(ctx, ESC, w)
        if r is None:
            open_ += 1
            if open_ > 40:
                break
            continue
        if r[0] == "raise":
            ctx.violation("escaped-form", "escape_path", "escape_path(%r) raises %s" % (w, r[1]), r[2])
            continue
        e = r[1]
        if not isinstance(e, str):
            ctx.violation("escaped-form", "escape_path", "escape_path(%r) gives the %s %r" % (w, type(e).__name__, e))
            continue
        if "/" in e or "\0" in e or e.startswith("."):
            ctx.violation("escaped-form", "escape_path", "escape_path(%r) is %r" % (w, e))
        r = run1(ctx, UNESC, e)
        if r is None:
            open_ += 1
            if open_ > 40:
                break
            continue
        ctx.count("round trips decided")
        if r[0] == "raise":
            ctx.violation("inverse", "unescape_path", "unescape_path(%r), the escape of %r, raises %s" % (e, w, r[1]), r[2])
        elif r[1] != w:
            ctx.violation("inverse", "unescape_path", "unescape_path(%r), the escape of %r, is %r" % (e, w, r[1]))
    if open_ > 40:
        ctx.note_undecided("escape_path has forms the interpreter doesn't know, %d names weren't decided" % open_)
    enc = [x for x in words(ctx, ["\\", "x", "2", "f", ".", "g"], n)] + ENCODED + INVALID
    enc += [a + b for a in ENCODED for b in ENCODED[:8]]
    enc += [a * k + b for k in lengths(ctx) for a in ("a", "\\\\", "\\x2f", "\\u03b1", ".") for b in ("", "\\x2ea")]
    enc += [c + x for c in BEFORE for x in INVALID + ENCODED[:12]]
    enc += ["a" + x + "\\\\" for x in INVALID] if ctx.tier == "thorough" else []
    open_ = 0
    for e in enc:
        ctx.count("names unescaped")
        r = run1(ctx, UNESC, e)
        if r is None:
            open_ += 1
            if open_ > 40:
                ctx.note_undecided("unescape_path has forms the interpreter doesn't know")
                break
            continue
        w = decode(e)
        if w is None:
            if r[0] == "value":
                ctx.violation("invalid", "unescape_path", "unescape_path(%r) doesn't refuse the invalid escape, it gives %r" % (e, r[1]))
            elif r[1] not in ("ValueError", "UnicodeDecodeError", None):
                ctx.violation("invalid", "unescape_path", "unescape_path(%r) raises %s instead of ValueError" % (e, r[1]), r[2])
        elif r[0] == "raise":
            ctx.violation("decode", "unescape_path", "unescape_path(%r) raises %s" % (e, r[1]), r[2])
        elif r[1] != w:
            ctx.violation("decode", "unescape_path", "unescape_path(%r) is %r, not %r" % (e, r[1], w))
    for f in (ESC, UNESC):
        name = f.rpartition(".")[2]
        for w in ("", "ab", "\u03b1", ".a" if f == ESC else "\\x2ea"):
            r, q = run1(ctx, f, w), run1(ctx, f, w.encode("utf-8"))
            ctx.count("kinds of names")
            if r is not None and q is not None and r[:2] != q[:2]:
                ctx.violation("kinds", name, "%s gives %r for %r and %r for it as bytes" % (name, r[1], w, q[1]))
        for w in NOT_UTF8:
            r = run1(ctx, f, w)
            ctx.count("kinds of names")
            if r is not None and r[0] == "value":
                ctx.violation("kinds", name, "%s(%r) isn't refused though it's no UTF-8, but gives %r" % (name, w, r[1]))
        for w in (3, None, 1.5, ("a",)):
            r = run1(ctx, f, w)
            ctx.count("kinds of names")
            if r is not None and (r[0] == "value" or r[1] not in ("TypeError", None)):
                ctx.violation("kinds", name, "%s(%r) doesn't raise a TypeError: %s" % (name, w, r[1]))
    ctx.need("names escaped", 30)


P, W = pathlib.PurePosixPath, pathlib.PureWindowsPath
PLAIN = [
    "", "/", "a", "/a", "a/b", "/a/b", "a//b", "a/./b", "a/../b", "..", ".", "./a", "a/", "/a/b/", "a\\x2fb", "a\\b/c", "/a/\\x2e.", "\u03b1/b",
    "../a", "/..", "a/..", "a/b/..", "a/b/../..",
]
# Bytes that are no UTF-8 name nothing: any str for them would name something else as well.
NOT_UTF8 = [b"a\xff", b"\xff", b"\xc3", b"\xed\xa0\x80", b"a\xe9b", b"\xc0\x80"]
ELEMENTS = ["a", "a/b", "..", ".", "...", ".a", "a\\b", "a\0", "/", "\\x2e", "\u03b1", "a b", "\\", "//", "a.b", "x/../y"]


def join_target(g, t):
    return posixpath.normpath(posixpath.join(g, t))


def check_c25(ctx):
    ctx.rule("element", "each element of a sequence stays one element, escaped exactly once")
    ctx.rule("plain", "paths that aren't sequences are normalised and never escaped")
    ctx.rule("result", "the result is a normalised group and a target, both str and not empty")
    ctx.rule("refused", "everything else is refused with a TypeError")
    if PROCESS not in ctx.prog.funcs:
        raise AnalysisBroken("no function " + PROCESS)
    open_ = []

    def result(p, what):
        ctx.count("paths processed")
        r = run1(ctx, PROCESS, p)
        if r is None:
            open_.append(p)
            return None
        if r[0] == "raise":
            ctx.violation(what, "process_path", "process_path(%r) raises %s" % (p, r[1]), r[2])
            return None
        v = r[1]
        if not isinstance(v, tuple) or len(v) != 2 or not all(isinstance(x, str) and x for x in v):
            ctx.violation("result", "process_path", "process_path(%r) gives %s" % (p, r[2]))
            return None
        g, t = v
        if "/" in t or posixpath.normpath(g) != g:
            ctx.violation("result", "process_path", "process_path(%r) gives the group %r and target %r" % (p, g, t))
            return None
        ctx.count("results compared")
        return v

    plains = []
    for s in PLAIN:
        plains += [(s, s), (s.encode("utf-8"), s), (P(s), s)]
    plains += [(W("a\\b\\c"), "a/b/c"), (W("a"), "a"), (W("a/b"), "a/b")]
    for p, s in plains:
        v = result(p, "plain")
        if v is None:
            continue
        n = posixpath.normpath(str(p) if isinstance(p, P) else s)
        want = (posixpath.dirname(n) or "/", posixpath.basename(n) or ".")
        if v != want and join_target(*v) != join_target(*want):
            ctx.violation("plain", "process_path", "process_path(%r) is %r, not %r" % (p, v, want))
        elif v != want:
            ctx.violation("result", "process_path", "process_path(%r) is %r, not %r" % (p, v, want))
    some = list(itertools.chain.from_iterable((".a/b" * k, "." * k, "\\" * k, "/" * k, "a" * k) for k in lengths(ctx)))
    seqs = [(e,) for e in some] + [("g", e) for e in some[::3]] + [("a",) * k for k in lengths(ctx)[:-1]] + [("g", "a/b", "..", ".")[:3] * k for k in lengths(ctx)[:6]]
    seqs += [(e,) for e in ELEMENTS] + [("g", e) for e in ELEMENTS] + [(e, "t") for e in ELEMENTS] + [(e, "b", "c", e) for e in ELEMENTS]
    if ctx.tier == "thorough":
        seqs += list(itertools.product(ELEMENTS, repeat=2)) + [("a",) + s for s in itertools.product(ELEMENTS[:8], repeat=2)]
    for seq in seqs:
        for conv in (lambda x: x, lambda x: x.encode("utf-8"), P):
            p = tuple(conv(x) for x in seq)
            names = [str(x) if isinstance(x, P) else x for x in (p if conv is P else seq)]
            v = result(p, "element")
            if v is None:
                continue
            g, t = v
            got = [x for x in g.split("/") if x not in ("", ".")] + ([] if t == "." else [t])
            dec = [decode(x) for x in got]
            if dec != names:
                ctx.violation("element", "process_path",
                              "process_path(%r) is %r, whose elements are %r" % (p, v, [d if d is not None else x for d, x in zip(dec, got)]))
    mixed = ("a/b", b"..", P("c/d"), "e")
    v = result(mixed, "element")
    if v is not None:
        dec = [decode(x) for x in v[0].split("/") if x] + [decode(v[1])]
        if dec != ["a/b", "..", "c/d", "e"]:
            ctx.violation("element", "process_path", "process_path(%r) is %r" % (mixed, v))
    # A list is as good as a tuple.
    r = ctx.attempt("process_path of a list", fn(PROCESS), StrWorld, lambda it: (lambda st: (
        st, [it.alloc(st, Obj("list", data=tuple((C(x), frozenset()) for x in ("a/b", "c"))))], []))(State()))
    if r is not None:
        it, prop, rets, raises = r
        ctx.count("paths processed")
        for st, x in rets:
            v = pyval_or(x)
            if isinstance(v, tuple) and (len(v) != 2 or [decode(y) for y in v if isinstance(y, str)] != ["a/b", "c"]):
                ctx.violation("element", "process_path", "process_path(['a/b', 'c']) is %r" % (v,))
        for st, e in raises:
            if not rets:
                ctx.violation("element", "process_path", "process_path(['a/b', 'c']) raises %s" % e.name, e.site)
    for bad in (3, None, 1.5, True, ("a", 3), ("a", None), (("a",), "b"), (1,)):
        ctx.count("paths refused")
        r = run1(ctx, PROCESS, bad)
        if r is None:
            open_.append(bad)
        elif r[0] == "value" or r[1] not in ("TypeError", None):
            ctx.violation("refused", "process_path", "process_path(%r) doesn't raise a TypeError but gives %s" % (bad, r[1]))
    for e in NOT_UTF8:
        for bad in (e, (e,), ("a", e), (e, "b")):
            ctx.count("paths refused")
            r = run1(ctx, PROCESS, bad)
            if r is None:
                open_.append(bad)
            elif r[0] == "value":
                ctx.violation("refused", "process_path", "process_path(%r) isn't refused though it isn't UTF-8, but gives %s" % (bad, r[1]))
    for name, cls in (("a set", "set"), ("a dict", "dict")):
        r = ctx.attempt("process_path of " + name, fn(PROCESS), StrWorld, lambda it: (lambda st: (
            st, [it.alloc(st, Obj(cls, data=((C("a"), frozenset()),) if cls == "set" else {C("a"): (C("b"), True)}))], []))(State()))
        if r is not None and r[2] and not r[3]:
            ctx.violation("refused", "process_path", "process_path takes %s" % name)
    if open_:
        ctx.note_undecided("process_path has forms the interpreter doesn't know, for %d paths like %r" % (len(open_), open_[0]))
    ctx.need("paths processed", 50)
