"""Models of the regular expressions of Python on constant strings.

T("re", pattern, flags) is a compiled pattern, T("match", pattern, flags,
string, pos, full) the match of it at pos.
"""

import re

from .terms import C, NONE, NotConst, T, cval, ext, is_c, pyval_or

FLAGS = {"A": re.A, "ASCII": re.A, "I": re.I, "IGNORECASE": re.I, "M": re.M, "MULTILINE": re.M,
         "S": re.S, "DOTALL": re.S, "X": re.X, "VERBOSE": re.X, "U": re.U, "UNICODE": re.U, "NOFLAG": re.RegexFlag(0)}
METHODS = {"match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer"}


def flag_of(t):
    if is_c(t) and isinstance(cval(t), int):
        return int(cval(t))
    if t.tag == "ext" and t.args[0].startswith("re."):
        v = FLAGS.get(t.args[0].split(".")[-1])
        return None if v is None else int(v)
    if t.tag == "op" and t.args[0] == "bitor":
        a, b = flag_of(t.args[1]), flag_of(t.args[2])
        return None if a is None or b is None else a | b
    return None


def compiled(t):
    return re.compile(t.args[0], t.args[1])


def match_of(t):
    p, fl, s, pos, full = t.args
    r = re.compile(p, fl)
    return (r.fullmatch if full else r.match)(s, pos)


def match_term(rt, m, full=False):
    return NONE if m is None else T("match", rt.args[0], rt.args[1], m.string, m.start(), full)


def call(it, st, f, args, kw, node, fr):
    """Result of a call concerning regular expressions, or None."""
    if f.tag == "ext" and f.args[0].startswith("re."):
        n = f.args[0][3:]
        kd = dict(kw)
        if n == "compile" and args:
            fl = flag_of(args[1] if len(args) > 1 else kd.get("flags", C(0)))
            p = pyval_or(args[0], NotConst)
            if args[0].tag == "re":
                return [(st, args[0])]
            if fl is None or not isinstance(p, (str, bytes)):
                return None
            try:
                re.compile(p, fl)
            except re.error:
                it.throw_named(st, "ValueError", node, fr, explicit=False)
                return []
            return [(st, T("re", p, fl))]
        if n == "escape" and len(args) == 1 and is_c(args[0]) and isinstance(cval(args[0]), (str, bytes)):
            return [(st, C(re.escape(cval(args[0]))))]
        if n in METHODS and args:
            fl = flag_of(kd.pop("flags", C(0)))
            p = pyval_or(args[0], NotConst)
            if args[0].tag == "re":
                rt = args[0]
            elif fl is None or not isinstance(p, (str, bytes)):
                return None
            else:
                try:
                    re.compile(p, fl)
                except re.error:
                    return None
                rt = T("re", p, fl)
            return method(it, st, rt, n, list(args[1:]), tuple(kd.items()), node, fr)
        return None
    if f.tag == "attr" and f.args[0].tag == "re" and f.args[1] in METHODS:
        return method(it, st, f.args[0], f.args[1], list(args), kw, node, fr)
    if f.tag == "attr" and f.args[0].tag == "match":
        m = match_of(f.args[0])
        v = [pyval_or(x, NotConst) for x in args]
        if NotConst in v or kw or f.args[1] not in ("group", "groups", "start", "end", "span", "groupdict"):
            return None
        try:
            r = getattr(m, f.args[1])(*v)
        except (IndexError, TypeError) as e:
            it.throw_named(st, type(e).__name__, node, fr, explicit=False)
            return []
        if isinstance(r, dict):
            return None
        return [(st, C(r))]
    return None


def method(it, st, rt, n, args, kw, node, fr):
    from .interp import Obj
    r = compiled(rt)
    kd = dict(kw)
    if n in ("sub", "subn"):
        names = ["repl", "string", "count"]
    elif n == "split":
        names = ["string", "maxsplit"]
    else:
        names = ["string", "pos", "endpos"]
    for name, a in zip(names, args):
        kd[name] = a
    s = pyval_or(kd.get("string", NONE), NotConst)
    if not isinstance(s, (str, bytes)):
        return None
    if type(s) is not type(r.pattern):
        it.throw_named(st, "TypeError", node, fr, explicit=False)
        return []
    nums = []
    for k in names:
        if k in ("count", "maxsplit", "pos", "endpos"):
            if k in kd:
                v = pyval_or(kd[k], None)
                if not isinstance(v, int):
                    return None
                nums.append(v)
    if n in ("match", "search", "fullmatch"):
        if len(nums) > 1:
            return None
        return [(st, match_term(rt, getattr(r, n)(s, *nums), n == "fullmatch"))]
    if n == "finditer":
        return [(st, it.alloc(st, Obj("list", data=tuple((match_term(rt, m), frozenset()) for m in r.finditer(s, *nums))), node))]
    if n in ("findall", "split"):
        return [(st, it.alloc(st, Obj("list", data=tuple((C(x), frozenset()) for x in getattr(r, n)(s, *nums))), node))]
    if "repl" not in kd:
        return None
    repl = kd["repl"]
    cnt = nums[0] if nums else 0
    rv = pyval_or(repl, NotConst)
    if isinstance(rv, (str, bytes)):
        try:
            out = r.subn(rv, s, cnt)
        except re.error:
            it.throw_named(st, "ValueError", node, fr, explicit=False)
            return []
        return [(st, C(out[0]) if n == "sub" else C(out))]
    if repl.tag == "c":
        return None
    states = [(st, [], 0)]
    k = 0
    for m in r.finditer(s):
        if cnt and k >= cnt:
            break
        k += 1
        nxt = []
        for x, parts, at in states:
            for y, v in it.call(repl, [match_term(rt, m)], [], x, node, fr):
                nxt.append((y, parts + [C(s[at:m.start()]), v], m.end()))
        states = nxt
    out = []
    for x, parts, at in states:
        parts = [p for p in parts + [C(s[at:])] if not (is_c(p) and cval(p) in ("", b""))]
        if isinstance(s, bytes):
            if not all(is_c(p) and isinstance(cval(p), bytes) for p in parts):
                return None
            v = C(b"".join(cval(p) for p in parts))
        elif any(is_c(p) and not isinstance(cval(p), str) for p in parts):
            it.throw_named(x, "TypeError", node, fr, explicit=False)
            continue
        else:
            v = it.fstr(parts)
        out.append((x, v if n == "sub" else T("tup", v, C(k))))
    return out


def attribute(t, name):
    v = compiled(t) if t.tag == "re" else match_of(t)
    if name in ("pattern", "flags", "groups") and t.tag == "re" or name in ("string", "pos", "endpos", "lastindex", "lastgroup") and t.tag == "match":
        return C(getattr(v, name))
    if name == "re" and t.tag == "match":
        return T("re", t.args[0], t.args[1])
    return None
