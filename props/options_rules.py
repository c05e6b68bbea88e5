"""Rules about the Options (C10, C11)."""

from .common import *

# The options that matter for MATLAB and the values they have to have.
LINKED = {
    "delete_unused_variables": True,
    "structured_numpy_ndarray_as_struct": True,
    "make_atleast_2d": True,
    "convert_numpy_bytes_to_utf16": True,
    "convert_numpy_str_to_utf16": True,
    "convert_bools_to_uint8": True,
    "reverse_dimension_order": True,
    "store_shape_for_empty": True,
    "complex_names": ("real", "imag"),
    "group_for_references": "/#refs#",
    "compression_algorithm": "gzip",
}
OTHER_BOOLS = ["store_python_metadata", "structs_as_dicts", "compress", "shuffle_filter",
               "compressed_fletcher32_filter", "uncompressed_fletcher32_filter"]
BOOLS = [k for k, v in LINKED.items() if v is True] + OTHER_BOOLS + ["matlab_compatible"]

DEFAULTS = dict(
    store_python_metadata=True, matlab_compatible=True, action_for_matlab_incompatible="error",
    delete_unused_variables=False, structured_numpy_ndarray_as_struct=False, make_atleast_2d=False,
    convert_numpy_bytes_to_utf16=False, convert_numpy_str_to_utf16=False, convert_bools_to_uint8=False,
    reverse_dimension_order=False, structs_as_dicts=False, store_shape_for_empty=False,
    complex_names=("r", "i"), group_for_references="/#refs#", oned_as="row",
    dict_like_keys_name="keys", dict_like_values_name="values", compress=True,
    compress_size_threshold=16 * 1024, compression_algorithm="gzip", gzip_compression_level=7,
    shuffle_filter=True, compressed_fletcher32_filter=True, uncompressed_fletcher32_filter=False,
)
NAMES = sorted(DEFAULTS)

# Values inside (given, what is read afterwards) and outside of the domains.
A_LIST = "a list"
BOOL_OUT = [1, 0, "True", "", None, 1.0, (), b"x", (True,)]
INSIDE = {k: [(True, True), (False, False)] for k in BOOLS}
OUTSIDE = {k: BOOL_OUT for k in BOOLS}
same = lambda *vs: [(v, v) for v in vs]
INSIDE.update(
    action_for_matlab_incompatible=same("ignore", "discard", "error"),
    complex_names=same(("real", "imag"), ("r", "i"), ("a", "b"), ("i", "r"), ("", "x"), ("imag", "real"), ("real", "i")),
    group_for_references=[("/#refs#", "/#refs#"), ("/a", "/a"), ("/a/b", "/a/b"), ("/a/", "/a"), ("/a//b", "/a/b"),
                          ("/a/../b", "/b"), ("/./a", "/a"), ("/a/b/..", "/a"), ("/#refs#/", "/#refs#"), ("//a", "/a"),
                          ("//#refs#", "/#refs#"), ("///a", "/a"), ("/../a", "/a"), ("/#refs#/x", "/#refs#/x"), ("/a b", "/a b"), ("/.a", "/.a")],
    oned_as=same("row", "column"),
    dict_like_keys_name=same("k", "keys", "v/a", "."),
    dict_like_values_name=same("v", "values", "a\x00"),
    compress_size_threshold=same(0, 1, 16384, 2 ** 40),
    compression_algorithm=same("gzip", "lzf", "szip"),
    gzip_compression_level=same(*range(10)),
)
OUTSIDE.update(
    action_for_matlab_incompatible=["", "Error", "errors", None, 1, b"error", ("error",), True],
    complex_names=[("a",), (), ("a", "b", "c"), ("a", 1), (1, "b"), (b"a", b"b"), "ab", None, A_LIST, 1, ("a", None)],
    group_for_references=["/", "", "a", "a/b", ".", "..", "/.", "/..", "//", "///", "/a/..", "../a", "./a", b"/a", None, 1, ("/a",), "/a/../.."],
    oned_as=["", "rows", "Row", None, 1, True, b"row", ("row",)],
    dict_like_keys_name=[b"k", None, 1, ("k",), True],
    dict_like_values_name=[b"v", None, 0, ("v",)],
    compress_size_threshold=[-1, -16384, 0.5, 1.0, "1", None, (), b"1"],
    compression_algorithm=["", "GZIP", "zip", "gz", None, 9, True, b"gzip", ("gzip",)],
    gzip_compression_level=[-1, 10, 11, 100, -9, 5.0, "7", None, (), 0.5],
)

DRIVER = "\n".join(["def get_%s(o):\n    return o.%s" % (n, n) for n in NAMES + ["marshaller_collection"]]
                   + ["def set_%s(o, v):\n    o.%s = v\n    return o" % (n, n) for n in NAMES + ["marshaller_collection"]])
DRV = "__rules_options"


class Pure(Property):
    cap = 32


def to_term(it, st, v):
    if v is A_LIST:
        return it.alloc(st, Obj("list", data=((C("a"), frozenset()), (C("b"), frozenset()))))
    if isinstance(v, tuple):
        return T("tup", *[C(x) for x in v])
    return C(v)


def value(t):
    """The constant a term stands for."""
    if t.tag == "tup":
        return tuple(value(x) for x in t.args)
    return pyval(t)


class Opts:
    """Runs the accessors of Options."""

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.prog.cls(OPTIONS)
        ctx.prog.add_driver(DRV, DRIVER)
        self.cache = {}

    def snapshot(self, st, o):
        """{option: term or set of terms} as the getters give them."""
        out = {}
        for n in NAMES:
            it, prop, rets, raises = self.ctx.run(fn("%s.get_%s" % (DRV, n)), Pure, lambda it: (st.fork(), [o], []))
            vs = {v for x, v in rets}
            if raises or not vs:
                vs.add(T("top"))
            ts = set()
            for v in vs:
                ts.update(alts(v))
            out[n] = ts
        return out

    def const(self, snap):
        """The snapshot with constants, None where not constant."""
        out = {}
        for n, ts in snap.items():
            if len(ts) != 1:
                return None
            try:
                out[n] = value(next(iter(ts)))
            except NotConst:
                return None
        return out

    def set(self, st, o, name, v):
        """States after an assignment, those where it raised, too."""
        def build(it):
            x = st.fork()
            return x, [o, v if isinstance(v, Term) else to_term(it, x, v)], []
        it, prop, rets, raises = self.ctx.run(fn("%s.set_%s" % (DRV, name)), Pure, build)
        return [(x, None) for x, r in rets] + [(x, e) for x, e in raises]

    def make(self, **kw):
        def build(it):
            st = State()
            return st, [], [(k, v if isinstance(v, Term) else to_term(it, st, v)) for k, v in kw.items()]
        it, prop, rets, raises = self.ctx.run(T("cls", OPTIONS), Pure, build)
        out = []
        for st, o in rets:
            st.trace = None
            st.p.clear()
            out.append((st, o))
        return out, raises


def other(name):
    """A value of the option that isn't the MATLAB one."""
    v = LINKED[name]
    return {True: False, ("real", "imag"): ("a", "b"), "/#refs#": "/r", "gzip": "lzf"}[v]


def fmt(n, v):
    return "%s=%r" % (n, "[...]" if v is A_LIST else v)


def diff(a, b, skip=()):
    return {n: (a[n], b[n]) for n in a if n not in skip and (type(a[n]) is not type(b[n]) or a[n] != b[n])}


def start_states(ops):
    out = []
    specs = [
        ("MATLAB compatible", {}),
        ("not MATLAB compatible", dict(matlab_compatible=False)),
        ("nothing as MATLAB wants it", dict(matlab_compatible=False, **{k: other(k) for k in LINKED})),
        ("all but compatibility as MATLAB wants it", dict(matlab_compatible=False, **LINKED)),
        ("unusual values", dict(matlab_compatible=False, oned_as="column", compress=False, gzip_compression_level=2,
                                compress_size_threshold=5, dict_like_keys_name="k", dict_like_values_name="v",
                                store_python_metadata=False, action_for_matlab_incompatible="ignore",
                                structs_as_dicts=True, shuffle_filter=False, compressed_fletcher32_filter=False,
                                uncompressed_fletcher32_filter=True)),
    ]
    for label, kw in specs:
        made, raises = ops.make(**kw)
        for st, o in made:
            snap = ops.const(ops.snapshot(st, o))
            if snap is None:
                ops.ctx.note_undecided("constructing options: %s" % label)
            else:
                out.append((label, kw, st, o, snap))
    return out


def compatible_ok(ctx, snap, what, st):
    if snap["matlab_compatible"] is True:
        bad = sorted(n for n in LINKED if snap[n] != LINKED[n])
        for n in bad:
            ctx.violation("C10.compatible", "%s after %s" % (n, what.split("=")[0]),
                          "options say they're MATLAB compatible with %s after %s" % (fmt(n, snap[n]), what), "", st.history())
    ctx.count("states_checked")


def assigned(ctx, ops, st, o, before, label, n, v, eff, ok):
    """Checks what setting one option makes of all of them."""
    for x, exc in ops.set(st, o, n, v):
        ctx.count("assignments_analysed")
        after = ops.const(ops.snapshot(x, o))
        if after is None:
            ctx.note_undecided("%s from options %s" % (fmt(n, v), label))
            continue
        what = "setting %s (%s before)" % (fmt(n, v), label)
        compatible_ok(ctx, after, what, x)
        exp = dict(before)
        if ok:
            exp[n] = eff
            if n == "matlab_compatible" and v:
                exp.update(LINKED)
            elif n in LINKED and eff != LINKED[n]:
                exp["matlab_compatible"] = False
        changed = diff(exp, after, () if ok else (n,))
        # What the option itself becomes is the other property's.
        changed.pop(n, None) if n != "matlab_compatible" else None
        if n == "matlab_compatible" and ok and n in changed:
            ctx.violation("C10.switch", what.split(" (")[0], "%s leaves matlab_compatible=%r" % (what, after[n]), "", x.history())
        for k in changed:
            if k == n:
                continue
            rule = "C10.switch" if k == "matlab_compatible" or n == "matlab_compatible" else "C10.others"
            ctx.violation(rule, "%s sets %s" % (n, k), "%s makes %s rather than %s" % (what, fmt(k, after[k]), fmt(k, exp[k])), "", x.history())


def check_c10(ctx):
    ctx.rule("C10.compatible", "options that say they are MATLAB compatible have the MATLAB value in every option that matters for it")
    ctx.rule("C10.switch", "turning compatibility on or off, or setting an option that matters, changes what it should")
    ctx.rule("C10.others", "setting an option changes no other one")
    ops = Opts(ctx)
    starts = start_states(ops)
    for label, kw, st, o, snap in starts:
        compatible_ok(ctx, snap, "constructing (%s)" % label, st)
        if snap["matlab_compatible"] is not kw.get("matlab_compatible", True):
            ctx.violation("C10.switch", "constructor", "options constructed with matlab_compatible=%s have %s"
                          % (kw.get("matlab_compatible", True), fmt("matlab_compatible", snap["matlab_compatible"])), "", st.history())
    # Every option of the constructor with MATLAB compatible options.
    for n in LINKED:
        made, raises = ops.make(**{n: other(n)})
        for st, o in made:
            s = ops.const(ops.snapshot(st, o))
            if s is not None:
                compatible_ok(ctx, s, "constructing with %s" % fmt(n, other(n)), st)
                if s["matlab_compatible"] is not True:
                    ctx.violation("C10.switch", "constructor with " + n, "options constructed with %s aren't MATLAB compatible" % fmt(n, other(n)), "", st.history())
    for label, kw, st, o, before in starts:
        for n in NAMES:
            inside = INSIDE[n]
            outside = OUTSIDE[n][:6]
            for v, eff in inside + [(v, None) for v in outside]:
                ok = any(v is w or (type(v) is type(w) and v == w) for w, e in inside)
                assigned(ctx, ops, st, o, before, label, n, v, eff, ok)
    # Each option at each value, and then each assignment.
    for base in ({}, dict(matlab_compatible=False, **{k: other(k) for k in LINKED}), dict(LINKED, matlab_compatible=False)):
        for m in NAMES:
            for w, weff in INSIDE[m]:
                for st, o in ops.make(**dict(base, **{m: w}))[0]:
                    before = ops.const(ops.snapshot(st, o))
                    if before is None:
                        continue
                    label = "%s%s" % (fmt(m, w), "" if not base else ", others as for MATLAB" if base.get("make_atleast_2d") else ", others not as for MATLAB")
                    for n in NAMES:
                        for v, eff in INSIDE[n] if n in LINKED or n == "matlab_compatible" or ctx.tier == "thorough" else INSIDE[n][:2]:
                            assigned(ctx, ops, st, o, before, label, n, v, eff, True)
    # Turning compatibility on when only one option isn't as it has to be.
    for n in LINKED:
        kw = dict(LINKED, matlab_compatible=False)
        kw[n] = other(n)
        for st, o in ops.make(**kw)[0]:
            for x, exc in ops.set(st, o, "matlab_compatible", True):
                after = ops.const(ops.snapshot(x, o))
                what = "setting matlab_compatible=True (%s before)" % fmt(n, other(n))
                if after is not None:
                    compatible_ok(ctx, after, what, x)
                    if after["matlab_compatible"] is not True:
                        ctx.violation("C10.switch", "turning on", "%s doesn't make them MATLAB compatible" % what, "", x.history())
    symbolic(ctx, ops, starts)
    ctx.need("states_checked", 100)
    ctx.sample("options checked from %d starting points" % len(starts))


def symbolic(ctx, ops, starts):
    """Setting an option of MATLAB compatible options to any value."""
    for label, kw, st, o, before in starts:
        if before["matlab_compatible"] is not True:
            continue
        for n in sorted(LINKED):
            kinds = [sym("value")]
            if isinstance(LINKED[n], str):
                kinds.append(typed("value", "builtins.str"))
            if isinstance(LINKED[n], tuple):
                kinds.append(T("tup", typed("first", "builtins.str"), typed("second", "builtins.str")))
            for v in kinds:
                for x, exc in ops.set(st, o, n, v):
                    ctx.count("assignments_analysed")
                    snap = ops.snapshot(x, o)
                    if snap["matlab_compatible"] != {TRUE}:
                        continue
                    for k in LINKED:
                        if len(snap[k]) != 1:
                            continue
                        t = next(iter(snap[k]))
                        it = Interp(ctx.prog, Pure())
                        want = to_term(it, x, LINKED[k])
                        if t is want or t.tag in ("top",):
                            continue
                        if k == n and known_equal(x, t, want):
                            continue
                        if k == n and mentions(t, v) or k != n:
                            if x.facts.get(T("cmp", "eq", t, want)) is False or k != n or not facts_about(x, v):
                                ctx.violation("C10.compatible", "%s after setting it" % n,
                                              "options say they're MATLAB compatible after setting %s to any %s" % (n, show(v)), "", x.history())
                            else:
                                ctx.note_undecided("symbolic value of %s" % n)


def known_equal(st, t, want):
    return st.facts.get(T("cmp", "eq", t, want)) is True or st.facts.get(T("cmp", "eq", want, t)) is True or st.facts.get(T("truth", t)) is True and want is TRUE or st.facts.get(T("cmp", "is", t, want)) is True


def facts_about(st, v):
    return any(mentions(a, v) for a in st.facts if a.tag == "cmp")


def check_c11(ctx):
    ctx.rule("C11.refused", "a value outside of the option's domain leaves it as it was")
    ctx.rule("C11.taken", "a value inside of the option's domain is what's read afterwards")
    ctx.rule("C11.constructor", "the constructor takes values inside of the domains and the default otherwise")
    ctx.rule("C11.default", "options not given have their documented default")
    ops = Opts(ctx)
    starts = [s for s in start_states(ops) if s[0] in ("not MATLAB compatible", "MATLAB compatible", "unusual values", "nothing as MATLAB wants it")]
    for label, kw, st, o, before in starts:
        exp = dict(DEFAULTS)
        exp.update(kw)
        if kw.get("matlab_compatible", True):
            exp.update(LINKED)
        for n, (a, b) in diff(exp, before).items():
            ctx.violation("C11.default" if n not in kw else "C11.constructor", n, "options constructed with %s have %s rather than %s"
                          % (", ".join(fmt(k, v) for k, v in sorted(kw.items())) or "nothing", fmt(n, b), fmt(n, a)), "", st.history())
        ctx.count("constructions_checked")
    for n in NAMES:
        for label, kw, st, o, before in starts:
            for v, eff in INSIDE[n]:
                one(ctx, ops, st, o, n, v, eff, "C11.taken", label)
            for v in OUTSIDE[n]:
                one(ctx, ops, st, o, n, v, before[n], "C11.refused", label)
        if n == "matlab_compatible":
            continue
        for v, eff in INSIDE[n] + [(v, DEFAULTS[n]) for v in OUTSIDE[n]]:
            made, raises = ops.make(matlab_compatible=False, **{n: v})
            for st, o in made:
                got = ops.snapshot(st, o)[n]
                judge(ctx, got, eff, "C11.constructor", n, "options constructed with %s have %%s" % fmt(n, v), st)
        for x in ("numpy.ndarray", "builtins.dict", "builtins.bytearray", "builtins.complex"):
            label, kw, st, o, before = starts[1]
            one(ctx, ops, st, o, n, typed("value", x), before[n], "C11.refused", label)
    ctx.need("values_checked", 300)
    ctx.need("constructions_checked", 3)


def one(ctx, ops, st, o, n, v, eff, rule, label):
    for x, exc in ops.set(st, o, n, v):
        if isinstance(v, Term) and facts_about(x, v):
            # Compared with something: what it's equal to isn't known.
            continue
        got = ops.snapshot_one(x, o, n)
        judge(ctx, got, eff, rule, n, "setting %s makes %s=%%s (options %s before)" % (fmt(n, show(v) if isinstance(v, Term) else v), n, label), x)


def judge(ctx, got, eff, rule, n, text, st):
    ctx.count("values_checked")
    vals = set()
    for t in got:
        try:
            vals.add((type(value(t)).__name__, value(t)))
        except NotConst:
            if t.tag == "typed" and rule == "C11.refused":
                vals.add((t.args[1].args[0], show(t)))
                continue
            ctx.note_undecided("value of %s" % n)
            return
    want = (type(eff).__name__, eff)
    if want in vals and len(vals) == 1:
        return
    if want in vals:
        ctx.note_undecided("value of %s" % n)
        return
    ctx.violation(rule, n, (text % repr(sorted(map(repr, vals))[0])) + " rather than %r" % (eff,), "", st.history())


def _one(self, st, o, n):
    it, prop, rets, raises = self.ctx.run(fn("%s.get_%s" % (DRV, n)), Pure, lambda it: (st.fork(), [o], []))
    ts = set()
    for x, v in rets:
        ts.update(alts(v))
    if raises or not ts:
        ts.add(T("top"))
    return ts


Opts.snapshot_one = _one
