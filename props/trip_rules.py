"""Checks on writing data of every kind and reading it back (C22, C23, C27, C28, C29, C31)."""

import os
import pickle
import posixpath
import sys
import time

from .data_cases import *

ML, PY = dict(matlab_compatible=True), dict(matlab_compatible=False)


def opts(base, **kw):
    return dict(base, **kw)


BASIC = [("MATLAB compatible", ML), ("not MATLAB compatible", PY)]
SHAPING = [
    ("at least 2d", opts(PY, make_atleast_2d=True)),
    ("at least 2d, columns", opts(PY, make_atleast_2d=True, oned_as="column")),
    ("MATLAB, columns", opts(ML, oned_as="column")),
    ("reversed dimensions", opts(PY, reverse_dimension_order=True)),
    ("shape for empty", opts(PY, store_shape_for_empty=True)),
]
CONVERTING = [
    ("bytes to UTF-16", opts(PY, convert_numpy_bytes_to_utf16=True)),
    ("str to UTF-16", opts(PY, convert_numpy_str_to_utf16=True)),
    ("bools to uint8", opts(PY, convert_bools_to_uint8=True)),
    ("all at once", opts(PY, reverse_dimension_order=True, make_atleast_2d=True, oned_as="column", convert_bools_to_uint8=True,
                         convert_numpy_bytes_to_utf16=True)),
]
STRUCTS = [
    ("structs", opts(PY, structured_numpy_ndarray_as_struct=True)),
    ("MATLAB, structs", opts(ML, structured_numpy_ndarray_as_struct=True)),
    ("structs, shape for empty", opts(PY, store_shape_for_empty=True, structured_numpy_ndarray_as_struct=True)),
]
COMPLEX = [("complex names", opts(PY, complex_names=("re", "im"))), ("MATLAB, complex names", opts(ML, complex_names=("re", "im")))]
KEYS = [
    ("MATLAB, names of keys and values", opts(ML, dict_like_keys_name="k", dict_like_values_name="v")),
    ("names of keys and values", opts(PY, dict_like_keys_name="k", dict_like_values_name="v")),
    ("exchanged names of keys and values", opts(PY, dict_like_keys_name="values", dict_like_values_name="keys")),
    ("names to escape of keys and values", opts(ML, dict_like_keys_name="n/a", dict_like_values_name=".x\\y")),
]
REFS = [
    ("other references", opts(PY, group_for_references="/a/b")), ("unused kept", opts(PY, delete_unused_variables=False)),
    ("unused deleted", opts(PY, delete_unused_variables=True)),
]
ALL = BASIC + SHAPING + CONVERTING + STRUCTS + COMPLEX + KEYS + REFS

BUDGET = 420
STOP_AFTER = 12


# ------------------------------------------------------- many at the same time

def spread(ctx, jobs, one):
    """Runs one(job) for all jobs in processes, yields (job, result or None).

    one returns something that can be pickled; what it adds to the context is
    handed over as well.  Jobs not reached in time are given None.
    """
    import multiprocessing
    end = time.time() + BUDGET
    n = 1 if multiprocessing.current_process().daemon else min(8, os.cpu_count() or 1, max(1, len(jobs) // 4))

    def careful(job):
        try:
            return one(job)
        except (AnalysisBroken, MemoryError):
            raise
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            ctx.note_undecided("not understood (%s)" % type(e).__name__)
            return None

    def part(k):
        before = dict(ctx.counts)
        und = list(ctx.undecided)
        steps, paths = ctx.steps, ctx.paths
        out = []
        for i in range(k, len(jobs), n):
            out.append((i, careful(jobs[i]) if time.time() < end else None))
        return (out, {a: b - before.get(a, 0) for a, b in ctx.counts.items()}, [u for u in ctx.undecided if u not in und],
                set(ctx.functions), ctx.steps - steps, ctx.paths - paths)
    if n == 1:
        res = dict(part(0)[0])
        return [(j, res.get(i)) for i, j in enumerate(jobs)]
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 1
            try:
                with os.fdopen(w, "wb") as f:
                    try:
                        pickle.dump(("ok", part(k)), f)
                    except AnalysisBroken as e:
                        pickle.dump(("broken", str(e)), f)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            os._exit(code)
        os.close(w)
        pids.append((pid, r))
    res, failed = {}, None
    for pid, r in pids:
        with os.fdopen(r, "rb") as f:
            try:
                tag, v = pickle.load(f)
            except Exception:
                tag, v = "broken", "a process ended early"
        os.waitpid(pid, 0)
        if tag != "ok":
            failed = v
            continue
        out, counts, und, fns, steps, paths = v
        res.update(out)
        for a, b in counts.items():
            ctx.count(a, b)
        for u in und:
            ctx.note_undecided(u)
        ctx.functions |= fns
        ctx.steps += steps
        ctx.paths += paths
    if failed:
        raise AnalysisBroken(failed)
    return [(j, res.get(i)) for i, j in enumerate(jobs)]


# ---------------------------------------------------------------- outcomes

def symbols(t, out):
    if isinstance(t, Term):
        if t.tag in ("s", "y", "typed"):
            out.add(t)
            return out
        for x in t.args:
            symbols(x, out)
    elif isinstance(t, (tuple, list)):
        for x in t:
            symbols(x, out)
    return out


def reachable(facts):
    """Whether some data surely takes the path: each symbol is in at most one
    of its conditions, and those are about single symbols."""
    seen = set()
    for a in facts:
        if not inputs_only(a):
            return False
        s = symbols(a, set())
        if len(s) != 1 or s & seen:
            return False
        seen |= s
    return True


def judge(outs, base):
    """(verdict, outcome): verdict is same, bad or unknown."""
    if all(o.kind == "same" for o in outs):
        return ("same", None) if outs else ("unknown", None)
    bad = [o for o in outs if o.kind in ("other", "raise")]
    if bad and len(bad) == len(outs):
        return "bad", bad[0]
    for o in bad:
        if reachable(set(o.st.facts) - base):
            return "bad", o
    return "unknown", (bad or [o for o in outs if o.kind != "same"])[0]


def says(o):
    if o.kind == "raise":
        return "%s raises %s" % (o.where, o.why)
    if o.where == "stored":
        return o.why
    return "%s is read as %s" % ("the data" + o.where if o.where else "the data", o.why[:300])


def trips(ctx, rule, cases, options, expected=lambda n, kw: False, world=CaseWorld, lab=None, check=None, read=True, check_read=None,
          other=True, compare=None):
    """Writes each case with each options and reads it back.

    A case is data, or for a history the list of its steps.  check(case, kw)
    may give what else is to be checked after writing, check_read(case, kw)
    after reading.  Other values are no violation when other isn't set.
    """
    lab = lab or Lab(ctx)
    base = {}
    for name, kw in options:
        base[name] = set(lab.options(**kw)[0].facts)
    jobs = [(c, o) for o in options for c in cases if not expected(c, o[1])]

    def one(job):
        c, (oname, kw) = job
        steps = cases[c] if isinstance(cases[c], list) else [("x", cases[c])]
        w = world
        outs = history(lab, "%s, %s" % (c, oname), steps, w, check=check(c, kw) if check else None, read=read,
                       check_read=check_read(c, kw) if check_read else None, compare=compare, **kw)
        if outs is None:
            return "unknown", "too big", ""
        if not other:
            outs = [o for o in outs if o.where == "stored" or o.kind == "same"] or [Outcome("same", None)]
        v, o = judge(outs, base[oname])
        return v, says(o) if o is not None else "", o.site if o is not None else ""
    bad = 0
    for (c, (oname, kw)), r in spread(ctx, jobs, one):
        ctx.count("round trips of data kinds")
        what = "%s (%s)" % (c, oname)
        if r is None:
            ctx.note_undecided("not reached in time: " + what)
            continue
        if r[0] == "unknown":
            ctx.note_undecided("%s: %s" % (what, r[1][:200]))
        if r[0] == "same":
            ctx.count("round trips decided")
            ctx.sample(what)
        if r[0] == "bad":
            bad += 1
            if bad <= STOP_AFTER:
                ctx.violation(rule, what, "%s: %s" % (what, r[1]), r[2])
    return bad


# ------------------------------------------------------------------ checks

NOT_MATLAB_DTYPES = ("float16", "void3", "void bare")


def not_stored(name, kw):
    """Data the documentation says isn't read back as it was."""
    if kw.get("matlab_compatible") and any(x in name for x in NOT_MATLAB_DTYPES):
        return True
    return name.endswith("(0,)") and name.replace("non ASCII ", "").split()[0] in ("structured", "recarray")


def check_c22(ctx):
    ctx.rule("same-value", "data of a builtin type is read back as the same type made of the same components")
    cases = dict(value_cases())
    cases.update({k: v for k, v in object_cases().items() if "array" not in k and "object" not in k})
    cases.update({k: v for k, v in dict_cases().items() if "ChainMap" in k})
    trips(ctx, "same-value", cases, BASIC + CONVERTING + STRUCTS + [SHAPING[1], SHAPING[2]] + REFS)
    some = lambda *w: {k: v for k, v in cases.items() if any(x in k for x in w)}
    trips(ctx, "same-value", {"large " + k: v for k, v in some("int", "nested", "list", "tuple").items()}, BASIC + CONVERTING, world=BigIntWorld)
    trips(ctx, "same-value", {"non ASCII " + k: v for k, v in some("str", "byte", "list").items()}, BASIC + CONVERTING, world=NonAsciiWorld)
    trips(ctx, "same-value", {"named " + k: v for k, v in some("timezone", "zone").items()}, BASIC, world=NamedZoneWorld)
    trips(ctx, "same-value", {"emptily named " + k: v for k, v in some("timezone", "zone").items()}, BASIC, world=EmptyZoneWorld)
    ctx.need("round trips of data kinds", 200)


def check_c23(ctx):
    ctx.rule("same-dict", "a dict is read back with the same keys of the same types, each with its value")
    trips(ctx, "same-dict", dict_cases(), BASIC + KEYS + STRUCTS[:2] + CONVERTING + [SHAPING[1], SHAPING[2]] + REFS)
    ctx.need("round trips of data kinds", 500)


def check_c27(ctx):
    ctx.rule("same-array", "an array, NumPy scalar or string is read back with the same type, dtype, shape and elements")
    trips(ctx, "same-array", array_cases(), ALL if ctx.tier != "thorough" else ALL + MORE, not_stored)
    trips(ctx, "same-array", field_cases(), BASIC + SHAPING + STRUCTS + REFS)
    texts = {"non ASCII " + k: v for k, v in array_cases().items() if "S3" in k or "U2" in k or "str" in k}
    trips(ctx, "same-array", texts, BASIC + CONVERTING + [SHAPING[1], SHAPING[2]], not_stored, world=NonAsciiWorld)
    ctx.need("round trips of data kinds", 4000)


ZEROS = ("uint64", (2,), (C(0), C(0)))
EMPTY_AT = {"MATLAB_class": ("S15", (), (C(b"canonical empty"),)), "MATLAB_empty": ("uint8", (), (C(1),))}
SOMETHING = ("int64", (1,), (C(7),))


class CollidingWorld(CaseWorld):
    """Random numbers come again, among them ones of names there are."""
    rand = (1, 1, 2, 1, 2, 3, 3, 4, 1, 5, 4, 6, 6, 6, 7, 1, 7, 8, 2, 9)


def refs_states():
    """Name -> objects in the references group before writing (below %s)."""
    n = "%s/" + "0" * 15
    own = lambda k: (n + str(k), SOMETHING, {})
    bad = lambda data=ZEROS, **at: ("%s/a", data, {k: v for k, v in dict(EMPTY_AT, **at).items() if v})
    return {
        "nothing": [], "an empty group": [("%s", None, {})], "a Dataset in its place": [("%s", SOMETHING, {})],
        "only a canonical empty": [bad()], "a canonical empty and others": [bad(), own(1), own(2)], "others without a canonical empty": [own(1), own(3)],
        "a canonical empty of text": [bad(MATLAB_class=("vlenstr", (), (C("canonical empty"),)))],
        "a group as canonical empty": [bad(None), ("%s/a/b", SOMETHING, {})],
        "a canonical empty of other shape": [bad(("uint64", (1, 2), (C(0), C(0))))],
        "a scalar canonical empty": [bad(("uint64", (), (C(0),)))],
        "a longer canonical empty": [bad(("uint64", (3,), (C(0),) * 3))],
        "a canonical empty of ones": [bad(("uint64", (2,), (C(0), C(1))))],
        "a canonical empty of ones first": [bad(("uint64", (2,), (C(1), C(0))))],
        "a canonical empty of floats": [bad(("float64", (2,), (C(0.0), C(0.0))))],
        "a canonical empty of another class": [bad(MATLAB_class=("S6", (), (C(b"double"),)))],
        "a canonical empty without class": [bad(MATLAB_class=None)],
        "a canonical empty not empty": [bad(MATLAB_empty=("uint8", (), (C(0),)))],
        "a canonical empty without emptiness": [bad(MATLAB_empty=None)],
    }


KEPT = ("only a canonical empty", "a canonical empty and others", "a canonical empty of text")


def ref_paths(st, world):
    """[(dataset, path referred to)] of the references stored."""
    return [(p, e.args[0] if e.tag == "h5ref" else None) for p, v in dict(st.p.get("ds", ())).items() if v[0] == "ref" for e in v[2]]


def check_refs(group, have, kept, empties=0):
    def check(it, st, at, held):
        w, ds, att = dict(st.p.get("w", ())), dict(st.p.get("ds", ())), dict(st.p.get("at", ()))
        seen = set()
        left = empties
        refs = ref_paths(st, it.prop)
        for p, q in refs:
            if q is None:
                raise Diff(False, "", "a reference isn't known")
            if q == group + "/a" and left:
                left -= 1
                continue
            if posixpath.dirname(q) != group:
                raise Diff(True, "stored", "an element of %s is stored at %s, not in the references group" % (p, q))
            if q not in w:
                raise Diff(True, "stored", "the reference to %s in %s points to nothing" % (q, p))
            if q == group + "/a":
                raise Diff(True, "stored", "an element of %s that can be written is made the canonical empty" % p)
            if q in seen:
                raise Diff(True, "stored", "two elements are both stored as %s" % q)
            seen.add(q)
        if left:
            raise Diff(True, "stored", "an element that isn't written isn't the canonical empty")
        if not refs:
            return
        if w.get(group) != "group":
            raise Diff(True, "stored", "the references group isn't a group")
        e = group + "/a"
        if w.get(e) != "dataset" or e not in ds:
            raise Diff(w.get(e) != "dataset", "stored", "there's no canonical empty")
        d, sh, el = ds[e][:3]
        if d is None or not isinstance(d, str) or not all(map(is_c, el)):
            raise Diff(False, "", "the canonical empty isn't known")
        v = {k: x for k, x in att.get(e, ())}
        txt = [x for x in v.get("MATLAB_class", (0, 0, ()))[2] if is_c(x)]
        ok = sh == (2,) and d.startswith("uint") and all(cval(x) == 0 for x in el) and [cval(x) for x in txt] in ([b"canonical empty"], ["canonical empty"]) \
            and [cval(x) for x in v.get("MATLAB_empty", (0, 0, ()))[2] if is_c(x)] == [1]
        if not ok:
            raise Diff(True, "stored", "the canonical empty is %s with the attributes %s" % (ds[e][:3], sorted(v.items())))
        for path, data, attrs in have:
            if data is None or path == group or path.startswith(e) and not kept:
                continue
            if path not in ds or tuple(ds[path][:3]) != tuple(data):
                raise Diff(True, "stored", "%s, which was in the references group, isn't there any more or is changed" % path)
    return check


LLF = "hdf5storage.utilities.LowLevelFile"
NAMES = 70000


def many_names(ctx, lab):
    """The names given out for elements one after another are all different."""
    m = Interp(ctx.prog).find_member(LLF, "next_unused_ref_group_name")
    if not (isinstance(m, tuple) and m[0] == "fn"):
        ctx.note_undecided("what gives names to elements")
        return
    q = m[1].qual
    st, o, ll = lab.options(**PY)
    seen = {}
    for i in range(NAMES):
        r = ctx.attempt("the %dth name" % i, fn(q), CaseWorld, lambda it: (st.fork(), [ll], []))
        if r is None or len(r[2]) != 1 or r[3] or not is_c(r[2][0][1]):
            ctx.note_undecided("the %dth name for an element" % i)
            break
        st, v = r[2][0]
        st.trace = None
        ctx.count("names given to elements")
        if v in seen or v is C("a"):
            ctx.violation("own-reference", q, "the %dth name for an element is %s, %s" % (
                i, show(v), "the one of the canonical empty" if v not in seen else "like the %dth" % seen[v]), "", ())
            break
        seen[v] = i


def check_c28(ctx):
    ctx.rule("same-elements", "each element of an object array or sequence is read back in its place")
    ctx.rule("own-reference", "each element is stored under a name of the references group not used before; the group and its canonical empty are valid, and kept if they were")
    lab = Lab(ctx)
    group = "/#refs#"
    trips(ctx, "same-elements", object_cases(), BASIC + SHAPING + STRUCTS + [CONVERTING[-1]] + REFS[1:], not_stored, lab=lab, check=lambda c, kw: check_refs(group, (), False))
    trips(ctx, "same-elements", object_cases(), REFS[:1], not_stored, lab=lab, check=lambda c, kw: check_refs("/a/b", (), False))
    ks = kinds()
    objs = dict(object_cases())
    some = {k: objs[k] for k in ("object array (3,)", "object array (2, 3)", "list", "set", "nested", "list of dicts", "structured objects (2,)")}
    some["structured objects as struct"] = objs["structured objects (2,)"]
    # Names that are taken, in a group that was there before.
    for world, names in ((CollidingWorld, "colliding names"), (CaseWorld, "other names")):
        cases = {}
        for a in some:
            for b in some if world is CollidingWorld or ctx.tier == "thorough" else ("list",):
                cases["%s, opened again, then %s (%s)" % (a, b, names)] = [("x", some[a]), (reopened, None), ("y", renamed(some[b], "'"))]
        trips(ctx, "own-reference", cases, BASIC, world=world, lab=lab, check=lambda c, kw: check_refs(group, (), False))
    # What may be in the references group, each with both option sets.
    for gname, o in ((group, BASIC), ("/a/b", REFS[:1])):
        for nm, objects in refs_states().items():
            there = [(p % gname, d, at) for p, d, at in objects]
            cases = {"%s with %s in the file" % (a, nm): [(having(*there), None), ("x", some[a])] for a in ("list", "nested", "object array (3,)")}
            trips(ctx, "own-reference", cases, o, world=CollidingWorld, lab=lab, check=lambda c, kw: check_refs(gname, there, nm in KEPT))
    many_names(ctx, lab)
    # Elements left out.
    half = array("float16", (2,))
    left = {"an array of halves, left out": (("list", [half, I("n")]), 1), "only halves, left out": (("list", [half, renamed(half, "'")]), 2),
            "halves among others, left out": (("tuple", [I("n"), half, S("s", 2), renamed(half, "'")]), 2)}
    for nm, (spec, k) in left.items():
        def dropped(it, st, at, held, k=k):
            check_refs(group, (), False, k)(it, st, at, held)
        for world in (CaseWorld,):
            r = history(lab, nm, [("x", spec)], world, check=dropped, **opts(ML, action_for_matlab_incompatible="discard"))
            ctx.count("round trips of data kinds")
            bad = [o for o in r or () if o.kind == "other" and o.where == "stored"]
            if bad:
                ctx.violation("own-reference", nm, "%s: %s" % (nm, says(bad[0])), bad[0].site)
            if not r or any(o.kind == "unknown" and not o.where for o in r):
                ctx.note_undecided(nm)
    ctx.need("round trips of data kinds", 300)


MORE = [
    ("%s%s" % (a, b), opts(PY, structured_numpy_ndarray_as_struct=s, make_atleast_2d=True, oned_as=c, reverse_dimension_order=r,
                           convert_bools_to_uint8=True, convert_numpy_str_to_utf16=u, convert_numpy_bytes_to_utf16=u, store_shape_for_empty=e))
    for a, s, u in (("structs", True, True), ("plain", False, False))
    for b, c, r, e in ((" columns reversed", "column", True, False), (" rows reversed, shape for empty", "row", True, True),
                       (" columns, shape for empty", "column", False, True))
]


FIRST = ("int", "str", "array float64 (3,)", "array float64 (0,)", "structured named (3,)", "structured objects (2,)", "nested", "list",
         "dict, keys str", "dict, keys mixed", "dict of values", "timedelta")


def pairs(second, first=None):
    ks = kinds()
    return {"%s, then %s" % (a, b): [("x", ks[a]), (second, renamed(ks[b], "'"))] for a in first or ks for b in ks}


SHAPES = [(), (1,), (1, 1), (3,), (1, 3), (3, 1), (1, 1, 3), (2, 3), (3, 2), (6,), (0,), (2, 0), (0, 3)]
SAME_SIZE = ["int64", "float64", "uint64", ">int64", ">float64", "complex64", "S8", "U2", "void8"]
ONE_BYTE = ["bool", "uint8", "int8", "S1", "void1"]


def alike_pairs():
    """Arrays written over arrays of another shape or dtype, often with as many elements or bytes."""
    out = {}
    for d in ("float64", "bool", "S3", "U2"):
        for a in SHAPES:
            for b in SHAPES:
                if a != b:
                    out["%s %s over %s" % (d, b, a)] = (array(d, a), array(d, b))
    for ds in (SAME_SIZE, ONE_BYTE, ["U1", "uint32", "int32", "float32", "S4"], ["uint16", "int16", "float16", "S2"]):
        for a in ds:
            for b in ds:
                if a != b:
                    out["%s over %s" % (b, a)] = (array(a, (3,)), array(b, (3,)))
    return {k: [("x", a), ("x", renamed(b, "'"))] for k, (a, b) in out.items()}


def check_c32(ctx):
    ctx.rule("replaced", "data written where other data is stored is read back as if nothing had been there")
    o = [BASIC[0], REFS[2]]
    if ctx.tier == "thorough":
        o += [("structs, shape for empty", opts(PY, store_shape_for_empty=True, structured_numpy_ndarray_as_struct=True, delete_unused_variables=True)), REFS[0]]
    trips(ctx, "replaced", pairs("x"), o)
    alike = alike_pairs()
    void = {k: v for k, v in alike.items() if "void" in k or "float16" in k}
    trips(ctx, "replaced", {k: v for k, v in alike.items() if k not in void}, BASIC[:1] + SHAPING[:2])
    trips(ctx, "replaced", void, [x for x in BASIC + SHAPING if not x[1].get("matlab_compatible")][:2])
    ctx.need("round trips of data kinds", 2000)


def small_lists():
    """Data with a few elements stored by reference."""
    out = {"a list of %d" % n: ("list", [ty("e%d" % i, "int") for i in range(n)]) for n in range(5)}
    out["nested"] = ("list", [("list", [I("u")]), ("tuple", [I("v"), S("w", 2)])])
    out["a dict of values"] = ("dict", [(C(1), I("k")), (C("b"), NONE)])
    return out


def long_histories():
    """Data of all kinds under many names of a file, also written again."""
    ks = kinds()
    names = list(ks)

    def at(i, k, mark):
        return ("n%02d" % i, renamed(ks[k], "%s%d" % (mark, i)))
    n = len(names)
    out = {"all kinds": [at(i, k, "'") for i, k in enumerate(names)],
           "all kinds backwards": [at(i, k, "'") for i, k in enumerate(reversed(names))],
           "all kinds, opened again half way": [at(i, k, "'") for i, k in enumerate(names[:n // 2])] + [(reopened, None)] + [at(i, k, "'") for i, k in enumerate(names) if i >= n // 2]}
    for by in (1, 7, 13):
        out["all kinds, all replaced by the one %d later" % by] = [at(i, k, "'") for i, k in enumerate(names)] + [at(i, names[(i + by) % n], '"') for i in range(n)]
    out["all kinds, opened again and all replaced"] = [at(i, k, "'") for i, k in enumerate(names)] + [(reopened, None)] + [at(i, names[(i + 5) % n], '"') for i in range(n)]
    els = [array("object", (0, 2)), array("object", (0, 3)), array("object", (0, 4)), array("float64", (2, 0)), array("int8", (2,)), array("U2", (1,)), ks["dict, keys str"], ks["empty str"], ks["None"], ks["nested"]]
    for by in (1, 3, 5):
        out["many lists, shifted by %d" % by] = [("n%02d" % i, ("list", [renamed(els[(i * by + j) % len(els)], "%d,%d" % (i, j)) for j in range(3)])) for i in range(24)]
    for k in ("list", "nested", "object array (3,)", "dict of values", "structured objects (2,)"):
        out["many of %s" % k] = [at(i, k, "'") for i in range(40)]
    return out


def check_c33(ctx):
    ctx.rule("untouched", "data written before under another name is read back as it was")
    trips(ctx, "untouched", pairs("y", FIRST), BASIC + [REFS[2]] if ctx.tier != "thorough" else BASIC + STRUCTS + REFS)
    two = {"%s, then opened again and %s" % (a, b): [("x", x), (reopened, None), ("y", renamed(y, "'"))] for a, x in small_lists().items() for b, y in small_lists().items()}
    trips(ctx, "untouched", two, BASIC + [REFS[2]])
    three = {"%s, %s and %s, opened again each time" % (a, b, c): [("x", x), (reopened, None), ("y", renamed(y, "'")), (reopened, None), ("z", renamed(z, '"'))]
             for a, x in small_lists().items() for b, y in small_lists().items() for c, z in small_lists().items() if "list" in a + b + c}
    trips(ctx, "untouched", three, BASIC[:1])
    long = long_histories()
    replacing = {k: v for k, v in long.items() if "replaced" in k}
    trips(ctx, "untouched", {k: v for k, v in long.items() if k not in replacing}, BASIC if ctx.tier != "thorough" else BASIC + STRUCTS + REFS)
    # Options which delete what's unused, otherwise old members stay.
    trips(ctx, "untouched", replacing, [BASIC[0], REFS[2]])
    ctx.need("round trips of data kinds", 1000)


UTF16 = [("MATLAB compatible", ML), ("str to UTF-16", opts(PY, convert_numpy_str_to_utf16=True)), ("MATLAB, columns", opts(ML, oned_as="column")),
         ("str to UTF-16, reversed dimensions", opts(PY, convert_numpy_str_to_utf16=True, reverse_dimension_order=True)),
         ("str to UTF-16, columns", opts(PY, convert_numpy_str_to_utf16=True, make_atleast_2d=True, oned_as="column")),
         ("not converting", PY)]


def stored_as(it, st, at):
    """Stored dataset (dtype, shape, elements, filters) of a name, None when there's none or it's unknown."""
    v = dict(st.p.get("ds", it.prop.ds)).get("/" + at)
    return None if v is None or v[0] in (None, "unknown") else v


def check_c31(ctx):
    ctx.rule("same-str", "str of all characters, also outside of the BMP and surrogates, are read back as they were")
    ctx.rule("width", "str are stored as uint16 if conversion to UTF-16 is on and all their characters are one unit each, else as uint32")
    cases = utf16_cases()

    def check(c, kw):
        want = cases[c][1] if c in cases else None
        if want is None:
            return None
        if not kw.get("matlab_compatible") and not kw.get("convert_numpy_str_to_utf16"):
            want = "uint32"

        def stored(it, st, at, held):
            v = stored_as(it, st, at)
            if v is None:
                raise Diff(False, "", "not stored as a known Dataset")
            if nat(v[0]) != want:
                raise Diff(isinstance(v[0], str) and v[0] in NUM, "stored", "it is stored as %s instead of %s" % (v[0], want))
        return stored
    lab = Lab(ctx)
    trips(ctx, "same-str", {k: v[0] for k, v in cases.items()}, UTF16, lab=lab, check=check)
    trips(ctx, "same-str", {k + " with surrogates": v for k, v in surrogate_cases().items()}, UTF16, world=SurrogateWorld, lab=lab)
    ctx.need("round trips of data kinds", 150)


# ----------------------------------------------------------------- complex

REAL_NAMES, IMAG_NAMES = ("r", "re", "real"), ("i", "im", "imag", "imaginary")
CNAMES = [("r", "i"), ("real", "imag"), ("re", "im"), ("a", "b"), ("i", "r"), ("im", "re"), ("Imaginary", "x"), ("y", "real")]


def complex_cases():
    a = array_cases()
    out = {k: v for k, v in a.items() if "complex" in k}
    out["complex"] = ty("v", "complex")
    out["list of complex"] = ("list", [ty("v", "complex"), array("complex64", (2,))])
    return out


def decoding_cases():
    """(what, fields, complex names, fields of the real and imaginary part or None)."""
    out = []
    for r in REAL_NAMES:
        for i in IMAG_NAMES:
            for f in ((r, i), (i, r)):
                out.append(("recognised", f, (None, None), (r, i)))
    out += [("recognised in capitals", f, (None, None), w) for f, w in (
        (("R", "I"), ("R", "I")), (("Imag", "Real"), ("Real", "Imag")), (("IMAGINARY", "re"), ("re", "IMAGINARY")), (("RE", "Im"), ("RE", "Im")))]
    for f in (("a", "b"), ("r", "x"), ("x", "i"), ("r", "re"), ("i", "im"), ("real", "r"), ("rr", "ii"), ("reals", "imags"), ("", "i"), ("x", "y")):
        out.append(("not recognised", f, (None, None), None))
    for n in ("j", "J", "k", "x", "y", "z", "c", "a", "b", "re_", "img", "im1", "complex", "phase", "abs", "angle", "0", "1", "f0", "f1", "val", "rr", "ii", "mag"):
        out += [("not recognised", f, (None, None), None) for f in ((n, "i"), ("r", n), (n, "im"), ("imag", n), ("real", n), (n, "imaginary"))]
    for f in (("x", "y"), ("a", "b"), ("f0", "f1"), ("0", "1"), ("abs", "angle"), ("mag", "phase"), ("re_", "im_"), ("real_part", "imag_part"), ("r ", "i "), (" r", "i")):
        out.append(("not recognised", f, (None, None), None))
    for f in (("r", "i", "x"), ("r",), ("real", "imag", "r"), ("re", "im", "real", "imag")):
        out.append(("not two fields", f, (None, None), None))
    for f in (("a", "b"), ("b", "a"), ("i", "r"), ("r", "i")):
        out.append(("given", f, f, f))
        out.append(("given", f, f[::-1], f[::-1]))
    out += [("given for others", ("a", "b"), ("x", "y"), None), ("given for others", ("a", "b"), ("a", "y"), None), ("given for others", ("r", "i"), ("x", "y"), ("r", "i")),
            ("half given", ("x", "i"), ("x", None), ("x", "i")), ("half given", ("r", "y"), (None, "y"), ("r", "y")), ("half given", ("x", "y"), ("x", None), None),
            ("not two fields", ("a", "b", "c"), ("a", "b"), None)]
    return out


DEC = "hdf5storage.utilities.decode_complex"
PARTS = [("float32", "float32", "complex64"), ("float64", "float64", "complex128"), ("float32", "float64", "complex128"), ("int32", "int32", "complex128"),
         ("float64", "float32", "complex128"), ("int8", "int8", "complex64"), (">float64", ">float64", "complex128")]


def check_c29(ctx):
    ctx.rule("same-complex", "complex data is read back as it was with the options it was written with")
    ctx.rule("parts", "complex data is stored with the two names of the options, the first for the real part")
    ctx.rule("recognise", "data of two fields is decoded as complex only with names given or recognised, the real part from the real one's")
    lab = Lab(ctx)

    def check(c, kw):
        names = kw.get("complex_names", ("r", "i")) if not kw.get("matlab_compatible") else ("real", "imag")

        def stored(it, st, at, held):
            v = stored_as(it, st, at)
            if not isarr(held.v) or v is None:
                return
            if not prod(it.prop.now(held.st, held.v).args[2]) and (kw.get("store_shape_for_empty") or kw.get("matlab_compatible")):
                return
            d = v[0]
            if not isinstance(d, tuple) or d[0] != "struct":
                raise Diff(True, "stored", "%s is stored as %s" % (c, d))
            if tuple(n for n, f in d[1]) != names:
                raise Diff(True, "stored", "%s is stored with fields %s" % (c, d))
            es = held.it.prop.elems(held.st, held.v)
            for e in v[2]:
                p = dict(e.args) if e.tag == "rec" else None
                if p is None or p[names[0]].tag not in ("re", "im"):
                    raise Diff(False, "", "parts not known")
                if p[names[0]].tag != "re" or p[names[1]].tag != "im":
                    raise Diff(True, "stored", "the parts of %s are stored as %s" % (c, show(e)))
        return stored
    trips(ctx, "same-complex", complex_cases(), [("names %s, %s" % n, opts(PY, complex_names=n)) for n in CNAMES] + [BASIC[0], SHAPING[0], SHAPING[1], SHAPING[3]],
          lab=lab, check=check)
    if DEC not in ctx.prog.funcs:
        ctx.note_undecided("no function " + DEC)
        return
    for what, fields, names, want in decoding_cases():
        for fr_, fi, cd in PARTS:
            for sh in ((2,), ()):
                if len(set(fields)) != len(fields) or "" in fields:
                    continue
                ctx.count("sets of fields decoded")
                ds = [fr_ if want is None or n == want[0] else fi for n in fields]
                d = ("struct", tuple(zip(fields, ds)))
                held = {}

                def build(it):
                    st = State()
                    held["it"] = it
                    held["d"] = mk(it.prop, it, st, array(d, sh))
                    held["st"] = st.fork()
                    return st, [held["d"], C(names)], []
                name = "fields %s with names %s" % (fields, names)
                r = ctx.attempt(name, fn(DEC), CaseWorld, build)
                if r is None:
                    continue
                it, prop, rets, raises = r
                if not rets and raises:
                    ctx.violation("recognise", name, "decoding fields %s (%s) with the names %s raises %s" % (fields, ds, names, raises[0][1].name), raises[0][1].site)
                    continue
                if len(rets) != 1 or raises:
                    ctx.note_undecided(name)
                    continue
                st, v = rets[0]
                if not isarr(v):
                    ctx.note_undecided(name)
                    continue
                v = prop.now(st, v)
                bad = None
                if want is None:
                    if v.args[1] != d:
                        bad = "is decoded to %s" % (v.args[1],)
                else:
                    es, given = prop.elems(st, v), held["it"].prop.elems(held["st"], held["d"])
                    if v.args[1] != cd or v.args[2] != sh:
                        bad = "is decoded to %s, %s instead of %s" % (v.args[1], v.args[2], cd)
                    else:
                        for e, g in zip(es, given):
                            parts = [x.args[0] if x.tag == "cast" else x for x in (real_part(e), imag_part(e))]
                            right = [dict(g.args)[want[0]], dict(g.args)[want[1]]]
                            if parts == right:
                                continue
                            if all(is_input(x) or is_c(x) for x in parts):
                                bad = "is decoded with the real part %s and imaginary part %s" % tuple(map(show, parts))
                            else:
                                ctx.note_undecided(name + ": " + show(e))
                if bad:
                    ctx.violation("recognise", name, "data of fields %s (%s) read with complex names %s %s" % (fields, ds, names, bad))
    ctx.need("round trips of data kinds", 150)
