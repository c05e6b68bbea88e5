"""Opening files: truncation, the userblock and the MATLAB header."""

import re

from .common import *
from .file_rules import ctor_args, handle_truth

TRUNCATING = {"w"}
CREATING = {"w", "a", "x", "w-"}
EXISTS = {"isfile", "exists", "lexists", "is_file", "access", "stat", "getsize"}
DESTROYING = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate",
              "os.renames", "shutil.move", "shutil.copy", "shutil.copyfile",
              "shutil.copy2"}
DESTROYING_METHODS = {"unlink", "write_bytes", "write_text", "rename", "replace",
                      "touch", "truncate"}
HEADER = b"MATLAB 7.3 MAT-file"
TAIL = bytes.fromhex("0000000000000000") + bytes.fromhex("0002494d")


class Ctor(Property):
    """What the constructor opens, closes and writes, in order.

    st.p: ev is the tuple of events
      ("open", mode, userblock or None, exists?, reason facts)
      ("header", content summary), ("destroy", what).
    """

    cap = 48

    def __init__(self, ctx, filename):
        self.ctx = ctx
        self.filename = filename

    def key(self, it, st):
        return (st.p.get("ev"), st.p.get("live"), st.p.get("py"), st.p.get("exists"),
                tuple(sorted((k.idx, v) for k, v in st.facts.items()
                             if isinstance(v, bool) and (ub_of(k) is not None or exists_atom(k, self.filename)))))

    def event(self, it, st, e, node, text):
        st.p["ev"] = st.p.get("ev", ()) + (e,)
        st.note("%s: %s" % (it.loc(node), text))

    def decide(self, it, st, atom):
        r = handle_truth(st, atom)
        if r is not None:
            return r
        u = ub_of(atom)
        if u is not None:
            # A file this path made has the userblock it asked for.
            known = made(u[0])
            if known is not None:
                return cmp_known(atom, u[0], known)
        return None

    def call(self, it, st, f, args, kw, node, fr):
        if f is H5FILE:
            return self.open_h5(it, st, f, args, kw, node, fr)
        if f.tag == "attr" and f.args[1] in ("close", "__exit__"):
            if is_handle(f.args[0]):
                st.p["live"] = tuple(x for x in st.p.get("live", ()) if x is not f.args[0])
                st.p["shut"] = st.p.get("shut", ()) + (f.args[0],)
                st.note("%s: HDF5 file closed" % it.loc(node))
                return [(st, NONE)]
            h = pyfile(f.args[0])
            if h is not None:
                self.py_close(it, st, h)
                return [(st, NONE)]
        if f.tag == "ext" and f.args[0] in ("builtins.open", "io.open") or (
                f.tag == "attr" and f.args[1] == "open" and mentions(f.args[0], self.filename)):
            return self.open_py(it, st, f, args, kw, node, fr)
        if f.tag == "ext" and f.args[0] in DESTROYING and any(mentions(a, self.filename) for a in args):
            self.event(it, st, ("destroy", f.args[0]), node, "%s of the file" % f.args[0])
        if f.tag == "attr" and f.args[1] in DESTROYING_METHODS and mentions(f.args[0], self.filename) \
                and not f.args[0].tag == "call":
            self.event(it, st, ("destroy", f.args[1]), node, "%s of the file" % f.args[1])
        if f.tag == "attr":
            base, m = f.args
            h = pyfile(base)
            if h is not None and m in ("write", "writelines"):
                self.py_write(it, st, h, args, node)
                return [(st, T("call", f, tuple(args), tuple(kw), "%d" % st.fresh()))]
            if h is not None and m == "seek":
                where = args[0] if args else C(0)
                if len(args) > 1 and pyval_or(args[1]) not in (0, None):
                    where = T("top")
                self.py_set(st, h, pos=where)
                return [(st, where)]
            if h is not None and m == "truncate":
                self.event(it, st, ("destroy", "truncate"), node, "truncate of the file")
                return [(st, NONE)]
            if bufferish(base) and m in ("extend", "append", "__iadd__"):
                self.buf_add(st, base, args[0] if m != "append" else T("byte", args[0]))
                return [(st, NONE)]
            if bufferish(base) and m in ("insert", "pop", "remove", "clear", "reverse"):
                self.buf_add(st, base, T("top"))
                return [(st, NONE)]
        return None

    def aug(self, it, st, target, val, node):
        if bufferish(target):
            self.buf_add(st, target, val)

    def setitem(self, it, st, base, idx, val, node):
        if bufferish(base):
            cur = self.buf(st, base)
            st.p["buf"] = tuple(x for x in st.p.get("buf", ()) if x[0] is not base) + (
                (base, (T("bufset", T("bufall", base, cur), idx, val),), True),)
        return None

    def buf(self, st, t):
        for b, parts, whole in st.p.get("buf", ()):
            if b is t:
                return parts
        return ()

    def buf_add(self, st, t, v):
        whole = False
        for b, parts, w in st.p.get("buf", ()):
            if b is t:
                whole = w
        cur = self.buf(st, t) + (v,)
        st.p["buf"] = tuple(x for x in st.p.get("buf", ()) if x[0] is not t) + ((t, cur, whole),)

    # -- HDF5 ------------------------------------------------------------
    def open_h5(self, it, st, f, args, kw, node, fr):
        d = dict(kw)
        mode = args[1] if len(args) > 1 else d.get("mode", C("r"))
        mode = pyval_or(mode)
        ub = d.get("userblock_size")
        ub = pyval_or(ub) if ub is not None else None
        known = st.p.get("exists")
        if known is None:
            for a, b in st.facts.items():
                if isinstance(b, bool) and exists_atom(a, self.filename):
                    known = b
                    break
        out = []
        if mode in ("r", "r+") and known is None:
            x = st.fork()
            x.p["exists"] = False
            it.throw_named(x, "FileNotFoundError", node, fr, explicit=False)
        if mode in ("x", "w-") and known is None:
            x = st.fork()
            x.p["exists"] = True
            it.throw_named(x, "FileExistsError", node, fr, explicit=False)
        name = args[0] if args else d.get("name")
        t = T("call", f, tuple(args), tuple(kw), "%d@%s" % (st.fresh(), it.here(node)))
        lo, hi = bounds(st)
        self.event(it, st, ("open", mode, ub, known, lo, hi, bool(st.p.get("live")), bool(st.p.get("py")),
                            name is self.filename, it.loc(node)), node,
                   "h5py.File opened in mode %s" % mode)
        st.p["exists"] = True
        st.p["live"] = st.p.get("live", ()) + (t,)
        it.implicit(st, f, node, fr)
        out.append((st, t))
        return out

    # -- plain file ------------------------------------------------------
    def open_py(self, it, st, f, args, kw, node, fr):
        d = dict(kw)
        if f.tag == "attr":
            mode = args[0] if args else d.get("mode", C("r"))
            mine = True
        else:
            mode = args[1] if len(args) > 1 else d.get("mode", C("r"))
            mine = bool(args) and mentions(args[0], self.filename)
        t = T("call", f, tuple(args), tuple(kw), "%d@%s" % (st.fresh(), it.here(node)))
        if mine:
            m = pyval_or(mode)
            if m is None:
                self.ctx.note_undecided("mode of open() at %s" % it.loc(node))
            elif "w" in m or "x" in m:
                self.event(it, st, ("destroy", "open() in mode %r" % m), node, "file opened in mode %r" % m)
            st.p["py"] = st.p.get("py", ()) + ((t, m, C(0), ()),)
        return [(st, t)]

    def py_set(self, st, h, pos=None, data=None):
        st.p["py"] = tuple((t, m, pos if pos is not None and t is h else p,
                            data if data is not None and t is h else w)
                           for t, m, p, w in st.p.get("py", ()))

    def py_close(self, it, st, h):
        st.p["py"] = tuple(x for x in st.p.get("py", ()) if x[0] is not h)

    def with_exit(self, it, st, v, kind, node):
        h = pyfile(v)
        if h is not None:
            self.py_close(it, st, h)
        if is_handle(v):
            st.p["live"] = tuple(x for x in st.p.get("live", ()) if x is not v)
        return None

    def py_write(self, it, st, h, args, node):
        for t, m, pos, done in st.p.get("py", ()):
            if t is h:
                parts = []
                v = args[0] if args else T("top")
                parts.extend(self.contents(it, st, v))
                self.py_set(st, h, data=done + tuple(parts))
                summary = summarise(it, st, done + tuple(parts))
                lo, hi = bounds(st)
                self.event(it, st, ("write", m, pos, summary, lo, hi, bool(st.p.get("live")), it.loc(node)), node,
                           "file written")

    def contents(self, it, st, v):
        for b, parts, whole in st.p.get("buf", ()):
            if b is v:
                return parts if whole else (b,) + parts
        return (v,)


def bufferish(t):
    return t.tag == "call" and t.args[0].tag == "ext" and t.args[0].args[0] in (
        "builtins.bytearray", "io.BytesIO")


def pyfile(t):
    if t.tag == "entered":
        t = t.args[0]
    if t.tag == "call":
        f = t.args[0]
        if f.tag == "ext" and f.args[0] in ("builtins.open", "io.open"):
            return t
        if f.tag == "attr" and f.args[1] == "open":
            return t
    return None


def exists_atom(atom, filename):
    """Does the atom tell whether the file exists?"""
    while atom.tag in ("not", "truth"):
        atom = atom.args[0]
    if atom.tag != "call":
        return False
    f = atom.args[0]
    n = f.args[0].split(".")[-1] if f.tag == "ext" else f.args[1] if f.tag == "attr" else ""
    return n in EXISTS and mentions(atom, filename)


def ub_of(atom):
    """(userblock term, constant, ub is left) of a comparison with one."""
    if atom.tag == "cmp" and atom.args[0] in ("lt", "eq"):
        for x, y, left in ((atom.args[1], atom.args[2], True), (atom.args[2], atom.args[1], False)):
            if x.tag == "attr" and x.args[1] == "userblock_size" and is_c(y) and isinstance(cval(y), int):
                return x, cval(y), left
    return None


def made(ub):
    """Userblock size of a handle that made its file."""
    h = ub.args[0]
    if is_handle(h):
        d = dict(h.args[2])
        mode = pyval_or(h.args[1][1] if len(h.args[1]) > 1 else d.get("mode", C("r")))
        if mode in ("w", "x", "w-"):
            v = d.get("userblock_size")
            return 0 if v is None else pyval_or(v)
    return None


def cmp_known(atom, ub, known):
    a, b = [known if x is ub else cval(x) for x in atom.args[1:]]
    return a < b if atom.args[0] == "lt" else a == b


def bounds(st):
    """Bounds of the size of the userblock of the existing file."""
    lo, hi = 0, None
    for a, v in st.facts.items():
        if not isinstance(v, bool):
            continue
        u = ub_of(a)
        if u is None:
            continue
        x, c, left = u
        known = made(x)
        if known is not None:
            continue
        if a.args[0] == "eq":
            if v:
                lo, hi = max(lo, c), c if hi is None else min(hi, c)
        elif left:
            if v:
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                lo = max(lo, c)
        else:
            if v:
                lo = max(lo, c + 1)
            else:
                hi = c if hi is None else min(hi, c)
    return lo, hi


# ------------------------------------------------------- length of strings

INF = 10 ** 9
NUMERIC = {"d": 2, "H": 2, "I": 2, "M": 2, "S": 2, "m": 2, "y": 2, "j": 3, "Y": 4,
           "f": 6, "%": 1, "w": 1, "U": 2, "W": 2, "V": 2, "u": 1, "G": 4}
LOCALE = set("aAbBcxXpZ")


class Text:
    """Known about a byte string: length bounds, literal start and end."""

    def __init__(self, lo=0, hi=0, head=b"", tail=b"", ascii=True, exact=True, locale=False):
        self.lo, self.hi, self.head, self.tail = lo, hi, head, tail
        self.ascii, self.exact, self.locale = ascii, exact, locale

    @staticmethod
    def lit(b):
        return Text(len(b), len(b), b, b, all(c < 128 for c in b), True)

    def __add__(self, o):
        return Text(
            self.lo + o.lo, min(self.hi + o.hi, INF),
            self.head + o.head if self.exact else self.head,
            self.tail + o.tail if o.exact else o.tail,
            self.ascii and o.ascii, self.exact and o.exact, self.locale or o.locale)


def var(lo, hi, ascii=True, locale=False):
    return Text(lo, hi, b"", b"", ascii, False, locale)


def strftime(spec):
    out = Text()
    i = 0
    while i < len(spec):
        c = spec[i]
        if c == "%" and i + 1 < len(spec):
            d = spec[i + 1]
            i += 2
            if d in NUMERIC:
                out += var(NUMERIC[d], NUMERIC[d])
            else:
                out += var(0, INF, d not in LOCALE, d in LOCALE)
        else:
            out += Text.lit(c.encode("utf-8"))
            i += 1
    return out


def pad_to(x, n, fill=b" "):
    """x padded on the right to n."""
    if x.hi <= n:
        return Text(n, n, x.head if not x.exact else x.head + fill * (n - x.lo),
                    b"", x.ascii, False, x.locale)
    return Text(max(x.lo, n), x.hi, x.head, b"", x.ascii, False, x.locale)


def text(it, st, t, sofar=()):
    """Text of a str or bytes term, None when unknown."""
    if is_c(t):
        v = cval(t)
        if isinstance(v, str):
            return Text.lit(v.encode("utf-8"))
        if isinstance(v, (bytes, bytearray)):
            return Text.lit(bytes(v))
        return None
    g, a = t.tag, t.args
    if g == "fstr" or (g == "op" and a[0] == "add"):
        return concat(it, st, flat(t))
    if g == "fmt":
        spec = pyval_or(a[2]) if isinstance(a[2], Term) else None
        x = a[0]
        if spec in ("", None) and a[2] is C(""):
            r = text(it, st, x)
            return r if r is not None else var(0, INF, False)
        if isinstance(spec, str):
            if "%" in spec:
                return strftime(spec)
            m = re.match(r"^(?:(.)?<)?(\d+)s?$", spec)
            r = text(it, st, x)
            if m and r is not None:
                return pad_to(r, int(m.group(2)), (m.group(1) or " ").encode())
        return var(0, INF, False)
    if g == "item":
        base, idx = a
        if base.tag == "tup" and base.args and all(is_c(x) and isinstance(cval(x), str) for x in base.args):
            vs = [cval(x).encode("utf-8") for x in base.args]
            return var(min(map(len, vs)), max(map(len, vs)), all(c < 128 for v in vs for c in v))
        if idx.tag == "slice":
            r = text(it, st, base)
            lo, hi = pyval_or(idx.args[0]), pyval_or(idx.args[1])
            if r is not None and lo in (None, 0) and isinstance(hi, int) and hi >= 0:
                return Text(min(r.lo, hi), min(r.hi, hi), r.head[:hi], b"", r.ascii, False, r.locale)
        o = it.obj(st, base)
        if o is not None and o.kind == "list":
            xs = [x[0] for x in o.data]
            if xs and all(is_c(x) and isinstance(cval(x), str) for x in xs):
                vs = [cval(x).encode("utf-8") for x in xs]
                return var(min(map(len, vs)), max(map(len, vs)), all(c < 128 for v in vs for c in v))
        return None
    if g == "op" and a[0] == "mul":
        for n, s in ((a[1], a[2]), (a[2], a[1])):
            k, r = pyval_or(n), text(it, st, s)
            if isinstance(k, int) and r is not None:
                out = Text()
                for _ in range(min(max(k, 0), 4096)):
                    out += r
                return out
        return None
    if g == "phi":
        rs = [text(it, st, x) for x in alts(t)]
        if any(r is None for r in rs):
            return None
        return Text(min(r.lo for r in rs), max(r.hi for r in rs), common([r.head for r in rs]),
                    common([r.tail[::-1] for r in rs])[::-1], all(r.ascii for r in rs), False,
                    any(r.locale for r in rs))
    if g == "call":
        f, args, kw = a[0], a[1], dict(a[2])
        if f.tag == "ext":
            n = f.args[0].split(".")[-1]
            if n in ("bytearray", "bytes"):
                if not args:
                    return Text()
                k = pyval_or(args[0])
                if isinstance(k, int):
                    return Text.lit(bytes(k)) if 0 <= k < 65536 else None
                return text(it, st, args[0])
            if n == "str" and len(args) == 1:
                return text(it, st, args[0])
            if n == "fromhex":
                k = pyval_or(args[0]) if args else None
                try:
                    return Text.lit(bytes.fromhex(k))
                except (TypeError, ValueError):
                    return None
            if f.args[0] == "time.strftime":
                k = pyval_or(args[0]) if args else None
                return strftime(k) if isinstance(k, str) else None
            if f.args[0] == "struct.pack":
                import struct
                try:
                    return Text.lit(struct.pack(*[pyval(x) for x in args]))
                except Exception:
                    return None
            return None
        if f.tag == "attr":
            base, m = f.args
            if m == "strftime":
                k = pyval_or(args[0]) if args else None
                return strftime(k) if isinstance(k, str) else None
            if m in ("encode", "decode", "__str__"):
                return text(it, st, base)
            if m == "ljust" and args:
                k, r = pyval_or(args[0]), text(it, st, base)
                if isinstance(k, int) and r is not None:
                    fill = pyval_or(args[1]) if len(args) > 1 else " "
                    return pad_to(r, k, fill.encode() if isinstance(fill, str) else fill if isinstance(fill, bytes) else b"?")
            if m == "fromhex":
                k = pyval_or(args[0]) if args else None
                try:
                    return Text.lit(bytes.fromhex(k))
                except (TypeError, ValueError):
                    return None
            if m in ("upper", "lower", "title", "capitalize", "swapcase"):
                r = text(it, st, base)
                return None if r is None else Text(r.lo, r.hi, b"", b"", r.ascii, False, r.locale)
            if m in ("tobytes", "getvalue", "getbuffer", "copy") and not args:
                return text(it, st, base)
    if g == "byte":
        k = pyval_or(a[0])
        return Text.lit(bytes([k])) if isinstance(k, int) and 0 <= k < 256 else None
    return None


def common(xs):
    out = b""
    for cs in zip(*xs):
        if len(set(cs)) > 1:
            break
        out += bytes([cs[0]])
    return out


def flat(t):
    if t.tag == "fstr":
        out = []
        for x in t.args:
            out.extend(flat(x))
        return out
    if t.tag == "op" and t.args[0] == "add":
        return flat(t.args[1]) + flat(t.args[2])
    if t.tag == "fmt" and t.args[2] is C("") and t.args[0].tag in ("fstr", "op"):
        return flat(t.args[0])
    return [t]


def pad_length(t):
    """(N, X) of (N - len(X)) * c, else None."""
    if t.tag == "op" and t.args[0] == "mul":
        for n, c in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            k = pyval_or(c)
            if not (isinstance(k, (str, bytes)) and len(k) == 1):
                continue
            if n.tag == "call" and n.args[0] is ext("builtins.max") and len(n.args[1]) == 2:
                rest = [x for x in n.args[1] if x is not C(0)]
                if len(rest) == 1:
                    n = rest[0]
            if n.tag == "op" and n.args[0] == "sub" and is_c(n.args[1]):
                x = n.args[2]
                if x.tag == "call" and x.args[0] is ext("builtins.len"):
                    return cval(n.args[1]), x.args[1][0], k.encode() if isinstance(k, str) else k
    return None


def concat(it, st, parts):
    out = Text()
    done = []
    for p in parts:
        pad = pad_length(p)
        if pad is not None and isinstance(pad[0], int):
            n, x, fill = pad
            if merged(flat(x)) == merged(done):
                out = pad_to(out, n, fill)
            else:
                r = text(it, st, x)
                if r is None:
                    return None
                out += var(max(n - r.hi, 0), max(n - r.lo, 0))
        else:
            r = text(it, st, p)
            if r is None:
                r = var(0, INF, False)
            out += r
        done.append(p)
    return out


def merged(parts):
    out = []
    for p in parts:
        if is_c(p) and out and is_c(out[-1]) and type(cval(p)) is type(cval(out[-1])) and isinstance(cval(p), (str, bytes)):
            out[-1] = C(cval(out[-1]) + cval(p))
        else:
            out.append(p)
    return out


def summarise(it, st, parts):
    """(lo, hi, head, tail, ascii, locale) of what was written, or None."""
    out = Text()
    for p in parts:
        r = text(it, st, p)
        if r is None:
            return None
        out += r
    return out.lo, out.hi, out.head, out.tail, out.ascii, out.locale


# ------------------------------------------------------------------ cases


def cases(ctx):
    """(te, ti, mc, returns, raises) for every setting of the flags."""
    filename = typed("filename", "builtins.str")
    for mc in (True, False):
        starts = [(State(), [("matlab_compatible", C(mc))])]
        starts += [(st, [("options", o)]) for st, o in options_objects(ctx, matlab_compatible=mc)]
        for te in (True, False):
            for ti in (True, False):
                for st0, opts in starts:
                    def build(it):
                        kw = [("filename", filename), ("writable", TRUE),
                              ("truncate_existing", C(te)), ("truncate_invalid_matlab", C(ti))]
                        return st0.fork(), [], kw + opts
                    it, prop, rets, raises = ctx.run(
                        T("cls", FILE), lambda: Ctor(ctx, filename), build)
                    ctx.count("flag_settings")
                    ctx.count("paths_checked", len(rets) + len(raises))
                    yield mc, te, ti, it, rets, raises


def settings(mc, te, ti):
    return "matlab_compatible=%s, truncate_existing=%s, truncate_invalid_matlab=%s" % (mc, te, ti)


def check_c04(ctx):
    ctx.rule("C04.truncates", "an existing file is opened in a truncating mode only with truncate_existing, or with truncate_invalid_matlab and matlab_compatible when its userblock is known to be smaller than 128")
    ctx.rule("C04.keeps", "with truncate_existing, or truncate_invalid_matlab and matlab_compatible and a userblock smaller than 128, a truncating open happens on every path that returns")
    ctx.rule("C04.userblock", "every open that makes the file asks for a userblock of at least 512 bytes")
    seen = 0
    for mc, te, ti, it, rets, raises in cases(ctx):
        for st, x, returned in [(s, v, True) for s, v in rets] + [(s, e, False) for s, e in raises]:
            truncated = False
            exists0 = None
            for e in st.p.get("ev", ()):
                if e[0] == "destroy" and not te:
                    ctx.violation("C04.truncates", FILE + ".__init__: " + e[1],
                                  "the existing file is lost by %s (%s)" % (e[1], settings(mc, te, ti)), "", st.history())
                if e[0] != "open":
                    continue
                _, mode, ub, known, lo, hi, live, py, named, loc = e
                if not named:
                    continue
                seen += 1
                if mode is None:
                    ctx.note_undecided("mode of h5py.File at %s" % loc)
                    continue
                if mode == "w":
                    invalid = ti and mc and hi is not None and hi < 128
                    if not (te or invalid or known is False):
                        ctx.violation("C04.truncates", FILE + ".__init__: mode w",
                                      "%s: a file that may exist is truncated (%s; userblock size between %s and %s)"
                                      % (loc, settings(mc, te, ti), lo, hi), loc, st.history())
                    truncated = True
                creates = mode in ("w", "x", "w-") or (mode == "a" and known is not True)
                if creates and not (isinstance(ub, int) and ub >= 512):
                    ctx.violation("C04.userblock", FILE + ".__init__: mode " + mode,
                                  "%s: the file may be made with userblock_size=%s (%s)" % (loc, ub, settings(mc, te, ti)),
                                  loc, st.history())
                if mode in ("x", "w-"):
                    truncated = True
            if not returned:
                continue
            if te and not truncated and not any(e[0] == "destroy" for e in st.p.get("ev", ())):
                ctx.violation("C04.keeps", FILE + ".__init__: truncate_existing",
                              "the file isn't truncated although truncate_existing is set (%s)" % settings(mc, te, ti), "", st.history())
            elif ti and mc and not te and not truncated:
                lo, hi = bounds(st)
                if lo < 128:
                    ctx.violation("C04.keeps", FILE + ".__init__: truncate_invalid_matlab",
                                  "a file whose userblock may be too small (between %s and %s) isn't truncated (%s)"
                                  % (lo, hi, settings(mc, te, ti)), "", st.history())
    ctx.count("opens_checked", seen)
    ctx.need("opens_checked", 4)
    ctx.need("flag_settings", 16)


def check_c05(ctx):
    ctx.rule("C05.when", "the header is written iff matlab_compatible is set and the userblock has at least 128 bytes")
    ctx.rule("C05.bytes", "what is written at offset 0 is exactly 128 bytes: ASCII text starting with 'MATLAB 7.3 MAT-file', padded to 116 bytes, then 8 zero bytes and 00 02 49 4d")
    ctx.rule("C05.locale", "the text doesn't depend on the locale")
    ctx.rule("C05.open", "no HDF5 handle is open while the header is written, and the plain file is closed before HDF5 opens the file")
    ctx.rule("C05.kept", "nothing truncates the file after the header was written")
    ctx.rule("C05.handle", "the File and its low level wrapper end up with the one handle that is open, which is writable")
    for mc, te, ti, it, rets, raises in cases(ctx):
        for st, o in rets:
            s = settings(mc, te, ti)
            evs = st.p.get("ev", ())
            written = None
            mk = None
            for i, e in enumerate(evs):
                if e[0] == "open":
                    _, mode, ub, known, lo, hi, live, py, named, loc = e
                    if py:
                        ctx.violation("C05.open", FILE + ".__init__: plain file open",
                                      "%s: HDF5 opens the file before the plain file is closed (%s)" % (loc, s), loc, st.history())
                    if mode in ("w", "x", "w-"):
                        mk = ub if ub is not None else 0
                        if written is not None:
                            ctx.violation("C05.kept", FILE + ".__init__: truncated",
                                          "%s: the file is truncated after the header was written (%s)" % (loc, s), loc, st.history())
                    elif mode == "a" and known is False:
                        mk = ub if ub is not None else 0
                elif e[0] == "destroy" and written is not None:
                    ctx.violation("C05.kept", FILE + ".__init__: " + e[1], "the file is lost after the header was written (%s)" % s, "", st.history())
                elif e[0] == "write":
                    _, m, pos, summ, lo, hi, live, loc = e
                    ctx.count("writes_checked")
                    written = e
                    if live:
                        ctx.violation("C05.open", FILE + ".__init__: HDF5 handle open",
                                      "%s: the file is written while HDF5 has it open (%s)" % (loc, s), loc, st.history())
                    if m is not None and ("a" in m or "w" in m or "b" not in m or "+" not in m):
                        ctx.violation("C05.bytes", FILE + ".__init__: mode",
                                      "%s: the file is written in mode %r (%s)" % (loc, m, s), loc, st.history())
                    if pos is not C(0):
                        ctx.violation("C05.bytes", FILE + ".__init__: offset",
                                      "%s: the header is written at %s (%s)" % (loc, show(pos), s), loc, st.history())
                    if not mc:
                        ctx.violation("C05.when", FILE + ".__init__: not matlab_compatible",
                                      "%s: a header is written (%s)" % (loc, s), loc, st.history())
                    elif (mk if mk is not None else lo) < 128:
                        ctx.violation("C05.when", FILE + ".__init__: small userblock",
                                      "%s: a header is written although the userblock may have only %s bytes (%s)"
                                      % (loc, mk if mk is not None else lo, s), loc, st.history())
            if written is not None:
                summ = written[3]
                loc = written[-1]
                if summ is None:
                    ctx.note_undecided("content of the header at %s" % loc)
                else:
                    lo, hi, head, tail, asc, locale = summ
                    ctx.sample("header: length %s..%s, starts %r, ends %r" % (lo, hi, head[:40], tail[-12:]))
                    if (lo, hi) != (128, 128):
                        ctx.violation("C05.bytes", FILE + ".__init__: length",
                                      "%s: the header has between %s and %s bytes rather than 128" % (loc, lo, "any number of" if hi >= INF else hi), loc, st.history())
                    elif not head.startswith(HEADER):
                        ctx.violation("C05.bytes", FILE + ".__init__: start", "%s: the header starts with %r" % (loc, head[:30]), loc, st.history())
                    elif not tail.endswith(TAIL):
                        ctx.violation("C05.bytes", FILE + ".__init__: end", "%s: the header ends with %r" % (loc, tail[-12:]), loc, st.history())
                    if locale or not asc:
                        ctx.violation("C05.locale", FILE + ".__init__: text", "%s: the text of the header may depend on the locale or not be ASCII" % loc, loc, st.history())
            elif mc:
                lo, hi = bounds(st)
                size = mk if mk is not None else None
                if size is None:
                    need = hi is None or hi >= 128
                else:
                    need = size >= 128
                if need:
                    ctx.violation("C05.when", FILE + ".__init__: no header",
                                  "no header is written although the userblock may have %s bytes (%s)"
                                  % (size if size is not None else "%s to %s" % (lo, "any number of" if hi is None else hi), s), "", st.history())
            # Handles.
            ob = it.obj(st, o)
            live = st.p.get("live", ())
            if st.p.get("py"):
                ctx.violation("C05.open", FILE + ".__init__: plain file left open", "the plain file isn't closed (%s)" % s, "", st.history())
            if len(live) != 1:
                ctx.violation("C05.handle", FILE + ".__init__: %d open" % len(live), "%d HDF5 handles are open at the end (%s)" % (len(live), s), "", st.history())
                continue
            for t in deep_values(it, st, o):
                if is_handle(t):
                    ctx.count("handles_checked")
                    if t is not live[0]:
                        ctx.violation("C05.handle", FILE + ".__init__: closed handle kept",
                                      "the File or its wrapper keeps a handle that was closed (%s)" % s, "", st.history())
            opens = [e for e in evs if e[0] == "open"]
            if opens and opens[-1][1] == "r":
                ctx.violation("C05.handle", FILE + ".__init__: read only", "a writable File ends up with a handle opened in mode 'r' (%s)" % s, "", st.history())
    ctx.need("flag_settings", 16)
    ctx.need("writes_checked", 1)
