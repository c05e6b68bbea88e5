"""Rules about the interfaces of a File: they name and do the same (C34).

Every operation is interpreted on a known file for paths in each form, and
what it does to the file is compared with what it's asked for.
"""

import pathlib

from .refs_rules import *

P = pathlib.PurePosixPath
# (the object meant, forms of its path)
FORMS = [
    ("/a/b", ["/a/b", "a/b", "/a//b/", "a/./b", "/a/c/../b", b"/a/b", P("/a/b"), ("a", "b"), ["a", "b"], (b"a", "b"), [P("a"), b"b"]]),
    ("/x/y", ["/x/y", b"x/y", ("x", "y"), ["x", "y"]]),
    ("/b", ["/b", "b", b"b", ("b",), ["b"], P("b")]),
    ("/nope/b", ["/nope/b", b"/nope/b", ("nope", "b"), ["nope", b"b"], P("nope/b")]),
    ("/nope/no/b", ["/nope/no/b", ("nope", "no", "b"), ["nope", "no", "b"]]),
    ("/nope", ["/nope", ["nope"], ("nope",)]),
    ("/a/b\\x2fc", [("a", "b/c"), ["a", b"b/c"], "/a/b\\x2fc", (P("a"), P("b/c"))]),
    ("/a/\\x2eb", [("a", ".b"), ["a", ".b"], "/a/\\x2eb"]),
    ("/x/a/b", ["/x/a/b", ("x", "a", "b"), ["x", "a", "b"]]),
    ("/\u03b1/\u03b2", ["/\u03b1/\u03b2", "/\u03b1/\u03b2".encode(), ("\u03b1", "\u03b2".encode())]),
]
WORLD = populated("/#refs#") + tree("/a/b\\x2fc", "/a/\\x2eb", "/\u03b1/", "/\u03b1/\u03b2")


def arg(p):
    """The path as an argument: lists are made where they're used."""
    return p if isinstance(p, list) else C(p)


def run_op(ctx, base, name, mk):
    m = Interp(ctx.prog).find_member(FILE, name)
    if not (isinstance(m, tuple) and m[0] == "fn"):
        raise AnalysisBroken("File.%s is gone" % name)
    q = m[1].qual

    def build(it):
        st = base[0].fork()

        def path(p):
            if isinstance(p, list):
                return it.alloc(st, Obj("list", data=tuple((C(x), frozenset()) for x in p)))
            return C(p)
        return st, [base[1]] + mk(it, st, path), []
    r = ctx.attempt("%s of a path" % q, fn(q), lambda: FileWorld(tuple(sorted(dict(WORLD).items()))), build)
    return (q,) + r if r is not None else (q, None, None, [], [])


def events(st, *names):
    return [e for e in st.p.get("ev") or () if e[0] in names]


def others(st, *names):
    return [e for e in st.p.get("ev") or () if e[0] not in names]


def where(e):
    """The object a write_data or read_data is about."""
    g, k = e[1], e[2]
    if g.tag != "h5":
        return None
    k = k if isinstance(k, str) else pyval_or(k)
    return resolve_path(g.args[0], k) if isinstance(k, str) else None


def wanted_groups(path):
    return {path[:i] or "/" for i, c in enumerate(path) if c == "/"}


def value_of(v):
    """(object, position) of the read_data a value is the result of."""
    if v.tag == "call" and v.args[0].tag == "bm":
        a = v.args[1]
        if len(a) >= 2 and a[0].tag == "h5" and is_c(a[1]):
            return resolve_path(a[0].args[0], cval(a[1]))
    return None


def items(it, st, v):
    ex = it.exact_items(st, v)
    return list(ex) if ex is not None and not any(isinstance(e, tuple) for e in ex) else None


def check_c34(ctx):
    ctx.rule("C34.written", "write, writes and item assignment write the data given at the place the path names and nothing else, whatever form the path has")
    ctx.rule("C34.read", "read, reads and item access give what the path names, in the order of the paths")
    ctx.rule("C34.deleted", "deleting an item deletes what the path names and nothing else")
    ctx.rule("C34.contained", "a path is contained if what it names exists")
    ctx.rule("C34.missing", "reading and deleting what isn't there raises KeyError")
    base = file_in(ctx, WORLD, group_for_references="/#refs#")
    have = dict(WORLD)
    d = sym("data0")
    for path, forms in FORMS:
        for form in forms:
            there = path in have
            up = path.rpartition("/")[0] or "/"
            for op, mk in (("write", lambda it, st, f: [d, f(form)]), ("__setitem__", lambda it, st, f: [f(form), d]),
                           ("writes", lambda it, st, f: [it.alloc(st, Obj("dict", data={f(form): (d, True)}))])):
                if op == "writes" and isinstance(form, list):
                    continue
                written(ctx, base, op, mk, form, [(path, d)])
            for op in ("read", "__getitem__", "reads"):
                read(ctx, base, op, (lambda it, st, f: [f(form)]) if op != "reads" else
                              (lambda it, st, f: [T("tup", f(form))]), form, [path], have, many=op == "reads")
            deleted(ctx, base, path, form, there)
            contained(ctx, base, path, form, there)
    a, b = sym("data0"), sym("data1")
    for p, q in (("/x/new", "/b/c"), ("/x/y", "/a/b"), ("/no/a", "/no/b"), ("/a/b", ("a", "b/c"))):
        w = [x if isinstance(x, str) else "/a/b\\x2fc" for x in (p, q)]
        for swap in (1, -1):
            written(ctx, base, "writes", lambda it, st, f: [it.alloc(st, Obj("dict", data=dict([(f(p), (a, True)), (f(q), (b, True))][::swap])))],
                    (p, q)[::swap], list(zip(w, (a, b)))[::swap])
    for ps in (["/x/y", "/a/b"], ["/a/b", "/x/y"], ["/a/b", "/a/b"], ["/x/y", "/a/b", "/b/c"], []):
        for mk in (lambda it, st, f: [T("tup", *map(C, ps))], lambda it, st, f: [it.alloc(st, Obj("list", data=tuple((C(x), frozenset()) for x in ps)))]):
            read(ctx, base, "reads", mk, ps, ps, have, many=True)
    iteration(ctx, base)
    ctx.need("operations", 200)


def written(ctx, base, op, mk, form, want):
    q, it, prop, rets, raises = run_op(ctx, base, op, mk)
    ctx.count("operations")
    sure = [x for x in raises if x[1].name is not None]
    if raises and not rets and len(sure) == len(raises):
        ctx.violation("C34.written", q, "%s with the path %r raises %s" % (q, form, raises[0][1].name), raises[0][1].site)
    for st, v in rets:
        ev = events(st, "write_data")
        got = [(where(e), e[3]) for e in ev]
        if any(g is None for g, _ in got):
            ctx.note_undecided("%s of %r" % (q, form))
            continue
        if got != want:
            ctx.violation("C34.written", q, "%s with the path %r writes %s rather than %s" % (
                q, form, ", ".join("%s at %s" % (show(x), g) for g, x in got) or "nothing", ", ".join("%s at %s" % (show(x), g) for g, x in want)), "", st.history())
            continue
        groups = set().union(*[wanted_groups(p) for p, _ in want])
        for e in others(st, "write_data", "get", "load", "in", "flush"):
            if e[0] in ("require_group", "create_group") and e[1] in groups:
                continue
            if e[0] in ("require_group", "create_group", "del"):
                ctx.violation("C34.written", q, "%s with the path %r does a %s of %s" % (q, form, e[0], e[1]), "", st.history())


def read(ctx, base, op, mk, form, paths, have, many):
    q, it, prop, rets, raises = run_op(ctx, base, op, mk)
    ctx.count("operations")
    missing = [p for p in paths if (p.rpartition("/")[0] or "/") not in have or have[p.rpartition("/")[0] or "/"] != "group"]
    if missing:
        for st, v in rets:
            if not raises:
                ctx.violation("C34.missing", q, "%s with the path %r doesn't fail though its group isn't there" % (q, form), "", st.history())
        for st, e in raises:
            if e.name not in (None, "KeyError") and not rets:
                ctx.violation("C34.missing", q, "%s with the path %r, whose group isn't there, raises %s" % (q, form, e.name), e.site, st.history())
        return
    if raises and not rets and all(e.name not in (None, "KeyError") for s, e in raises):
        ctx.violation("C34.read", q, "%s with the path %r raises %s" % (q, form, raises[0][1].name), raises[0][1].site)
    for st, v in rets:
        vs = items(it, st, v) if many else [v]
        got = [value_of(x) for x in vs] if vs is not None else None
        if got is None or None in got:
            ctx.note_undecided("%s of %r gives %s" % (q, form, show(v)[:100]))
        elif got != list(paths):
            ctx.violation("C34.read", q, "%s with the path %r gives what's at %s rather than %s" % (q, form, got, list(paths)), "", st.history())


def deleted(ctx, base, path, form, there):
    q, it, prop, rets, raises = run_op(ctx, base, "__delitem__", lambda it, st, f: [f(form)])
    ctx.count("operations")
    for st, v in rets:
        got = [e[1] for e in events(st, "del")]
        if not there:
            if not raises:
                ctx.violation("C34.missing", q, "%s of %r, which isn't there, doesn't fail" % (q, form), "", st.history())
        elif got != [path]:
            ctx.violation("C34.deleted", q, "%s of %r deletes %s rather than %s" % (q, form, got or "nothing", path), "", st.history())
    for st in [x for x, _ in rets + raises]:
        for e in others(st, "write_data", "get", "load", "in", "flush"):
            if e[0] in ("require_group", "create_group") and e[1] not in dict(WORLD):
                ctx.violation("C34.deleted", q, "%s of %r does a %s of %s" % (q, form, e[0], e[1]), "", st.history())
    for st, e in raises:
        if rets or e.name is None or e.name == "KeyError" and not there:
            continue
        ctx.violation("C34.missing" if not there else "C34.deleted", q, "%s of %r raises %s" % (q, form, e.name), e.site, st.history())


def contained(ctx, base, path, form, there):
    q, it, prop, rets, raises = run_op(ctx, base, "__contains__", lambda it, st, f: [f(form)])
    ctx.count("operations")
    for st, v in rets:
        r = pyval_or(v)
        if not isinstance(r, bool):
            ctx.note_undecided("%s of %r is %s" % (q, form, show(v)))
        elif r != there:
            ctx.violation("C34.contained", q, "%s of %r is %r" % (q, form, r), "", st.history())
    for st, e in raises:
        if not rets and e.name is not None:
            ctx.violation("C34.contained", q, "%s of %r raises %s" % (q, form, e.name), e.site, st.history())


def iteration(ctx, base):
    q, it, prop, rets, raises = run_op(ctx, base, "__iter__", lambda it, st, f: [])
    for st, v in rets:
        for got in iterated(it, prop, st, v):
            for name in got or ():
                p = "/" + name
                contained(ctx, base, p, name, True)
