"""Check on the form data is stored in, which the options ask for (C35)."""

from .effect_rules import all_cases
from .meta_rules import *

FULL = dict(make_atleast_2d=True, oned_as="row", reverse_dimension_order=True, convert_bools_to_uint8=True, convert_numpy_bytes_to_utf16=True,
            convert_numpy_str_to_utf16=True, store_shape_for_empty=True, structured_numpy_ndarray_as_struct=True, complex_names=("real", "imag"))
NONE_SET = dict({k: False for k in FULL}, oned_as="row", complex_names=("r", "i"))
FORMS = BASIC + SHAPING + CONVERTING + STRUCTS + COMPLEX + MORE + [
    ("MATLAB, columns, complex names", opts(ML, oned_as="column", complex_names=("a", "b"))),
    ("bools reversed", opts(PY, convert_bools_to_uint8=True, reverse_dimension_order=True)),
    ("bytes and str to UTF-16, columns", opts(PY, convert_numpy_bytes_to_utf16=True, convert_numpy_str_to_utf16=True, make_atleast_2d=True, oned_as="column")),
    ("columns, not at least 2d", opts(PY, oned_as="column")),
    ("columns, not at least 2d, reversed", opts(PY, oned_as="column", reverse_dimension_order=True, store_shape_for_empty=True)),
]


def settings(kw):
    """What the options amount to (matlab_compatible turns all conversions on)."""
    s = dict(FULL if kw.get("matlab_compatible") else NONE_SET)
    s.update({k: v for k, v in kw.items() if k in s and (k == "oned_as" or not kw.get("matlab_compatible"))})
    return s


def transposed(sh, el):
    """Elements in C order of the array with the dimensions reversed."""
    out = []
    for i in range(size(sh)):
        # Index in the reversed shape, last changing fastest
        idx, k = [], i
        for n in sh:
            idx.append(k % n)
            k //= n
        pos = 0
        for n, j in zip(sh, idx):
            pos = pos * n + j
        out.append(el[pos])
    return out


def two_d(sh, o):
    if not o["make_atleast_2d"] or len(sh) > 1:
        return sh
    return (sh + (1,) if o["oned_as"] == "column" else (1,) + sh) if sh else (1, 1)


def origin(t):
    """What an element is made of: a symbol, or a unit or part of one; None if it isn't known."""
    if t.tag == "cast":
        return origin(t.args[0])
    if t.tag in ("cu", "ch", "by"):
        return (t.args[0], t.args[1])
    if t.tag in ("re", "im"):
        return (t.tag, origin(t.args[0]))
    if t.tag in ("typed", "s", "y") or is_c(t):
        return t
    return None


def expected_form(k, el, o):
    """(dtype, shape, elements by origin or None) of an array, None when it isn't said here."""
    d, sh = nat(k.dtype), k.shape
    kd = kind(d)
    if isinstance(d, tuple) or d == "object" or kd == "O":
        if isinstance(d, tuple) and (d[0] != "struct" or o["structured_numpy_ndarray_as_struct"] or not size(sh)
                                     or any(isinstance(f, tuple) or kind(f) in "OUSc" or n == "." or set(n) & set("/\0") for n, f in d[1])):
            return None
        d, el = ("ref" if kd == "O" else d), None
    else:
        el = [origin(e) for e in el]
    text = kd in "SU" and d[1:] != "" and int(d[1:]) > 0
    if kd in "SU" and (not text or not size(sh)):
        return None
    if not size(sh):
        sh = two_d(sh, o)
        if o["store_shape_for_empty"]:
            return "uint64", (len(sh),), [C(n) for n in sh]
        el = []
    else:
        sh = two_d(sh, o)
    if kd == "b" and o["convert_bools_to_uint8"]:
        d = "uint8"
    n = int(d[1:]) if text else 0
    if kd == "U" or (kd == "S" and o["convert_numpy_bytes_to_utf16"]):
        d = "uint16" if kd == "S" or o["convert_numpy_str_to_utf16"] else "uint32"
        el = [None if e is None else (e, T_INDEX[i]) for e in el for i in range(n)]
        sh = sh[:-1] + (sh[-1] * n,) if sh else (n,)
    if kd == "c":
        f = "float32" if d == "complex64" else "float64"
        d = ("struct", tuple((x, f) for x in o["complex_names"]))
        el = [None if e is None else (("re", e), ("im", e)) for e in el]
    if o["reverse_dimension_order"]:
        el = None if el is None else transposed(sh, el)
        sh = sh[::-1]
    return d, sh, el


T_INDEX = list(range(64))


def stored_origin(t, names):
    """What a stored element is made of, in the form of expected_form."""
    if t.tag == "rec":
        fs = dict(t.args)
        if len(fs) != 2 or set(fs) != set(names):
            return None
        return tuple(origin(fs[x]) for x in names)
    return origin(t)


class Form:
    """Compares what is stored with what the options ask for, also of elements and items."""

    def __init__(self, kw, it, st, held):
        self.o, self.it, self.st, self.held = settings(kw), it, st, held

    def bad(self, path, text, sure=True):
        raise Diff(sure, "stored", ("it is stored " if path.count("/") < 2 else "what is stored at %s is stored " % path) + text)

    def same(self, path, v):
        h = self.held
        k = kind_of(h.it, h.st, v)
        if k is None:
            return
        if k.keys is not None:
            if k.keys != "individually" and k.items is not None:
                for n, x in zip(k.keys[0], k.items):
                    if n != "." and not set(n) & set("/\0\\"):
                        self.same(path + "/" + n, x)
            return
        if k.dtype is None or k.shape is None or k.dtype in ("S", "U"):
            return
        if isarr(v):
            el = h.it.prop.elems(h.st, v)
        elif k.items is not None:
            el = k.items
        else:
            el = [v] if size(k.shape) else []
        if k.dtype == "object" and not isarr(v) and k.items is None:
            el = [NONE] * size(k.shape)
            k.items = ()
        if len(el) != size(k.shape):
            return
        want = expected_form(k, el, self.o)
        if want is None:
            return
        have = stored_as(self.it, self.st, path[1:])
        if have is None:
            if dict(self.st.p.get("w", ())).get(path) == "group":
                self.bad(path, "as a Group")
            raise Diff(False, "", "not stored as a known Dataset")
        d, sh, els = nat(have[0]), have[1], have[2]
        if d != want[0]:
            self.bad(path, "with the dtype %s instead of %s" % (d, want[0]))
        if sh != want[1]:
            self.bad(path, "with the shape %s instead of %s" % (sh, want[1]), isinstance(sh, tuple))
        if els is None:
            return
        if want[0] == "ref":
            order = transposed(two_d(k.shape, self.o), el) if self.o["reverse_dimension_order"] else el
            for r, x in zip(els, order):
                if r.tag == "h5ref" and isinstance(r.args[0], str) and k.items != ():
                    self.same(r.args[0], x)
            return
        for i, (x, y) in enumerate(zip(els, want[2])):
            z = stored_origin(x, self.o["complex_names"])
            if z != y and not alike(z, y):
                self.bad(path, "with %s as element %d instead of %s" % (z, i, y), known(z) and known(y))


def form(c, kw):
    def check(it, st, at, held):
        Form(kw, it, st, held).same("/" + at, held.v)
    return check


def alike(x, y):
    """Whether elements are equal constants or units of constants, which aren't followed."""
    f = lambda t: hasattr(t, "tag") and is_c(t)
    if f(x) and f(y):
        return cval(x) == cval(y)
    return f(x) and isinstance(y, tuple) and len(y) == 2 and (f(y[0]) or any(isinstance(z, tuple) and f(z[1]) for z in y)) or (
        isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(a == b or alike(a, b) for a, b in zip(x, y)))


def known(x):
    return x is not None and (not isinstance(x, tuple) or all(known(y) for y in x))


def check_c35(ctx):
    ctx.rule("form", "data is stored with the dtype, shape and order of elements the options ask for")
    cases = dict(array_cases())
    cases.update({k: v for k, v in object_cases().items() if "structured" not in k})
    cases.update(value_cases())
    cases.update({k: v for k, v in dict_cases().items() if "keys str" in k or "values" in k or "ChainMap" in k})
    if ctx.tier != "thorough":
        keep = ("bool", "int16", "float64", "complex64", "uint64", "S", "U", "object", ">")
        cases = {k: v for k, v in cases.items() if not any(x in k for x in NUMERIC) or any(x in k for x in keep)}
    trips(ctx, "form", cases, FORMS, not_stored, check=form, read=False)
    ctx.need("round trips of data kinds", 1000)


def readings(thorough):
    """(what, options of writing, options of reading) that have to give the same data."""
    named = dict(BASIC + SHAPING + CONVERTING + STRUCTS + COMPLEX + KEYS + REFS)
    rev = ("reversed dimensions", "all at once")
    out = []
    for a, x in named.items():
        for b, y in named.items():
            if x == y or not (x.get("matlab_compatible") or (a in rev) == (b in rev or bool(y.get("matlab_compatible")))):
                continue
            if thorough or a == b or (a, b) in FEW or (b == "not MATLAB compatible" and a not in rev):
                out.append(("%s, read with %s" % (a, b), x, y))
    return out


FEW = {(a, b) for a in ("MATLAB compatible", "not MATLAB compatible") for b in (
    "at least 2d, columns", "shape for empty", "str to UTF-16", "complex names", "exchanged names of keys and values", "other references", "structs")} | {
    ("reversed dimensions", "MATLAB compatible"), ("all at once", "MATLAB, columns"), ("MATLAB compatible", "all at once"), ("MATLAB, columns", "reversed dimensions"),
    ("MATLAB, structs", "bools to uint8"), ("names of keys and values", "names to escape of keys and values"), ("other references", "unused kept"),
    ("bools to uint8", "bytes to UTF-16"), ("str to UTF-16", "bools to uint8")}
FEW = {p for p in FEW if "names to escape of keys and values" not in p}


def check_c36(ctx):
    ctx.rule("same-anyhow", "data is read back as it was with other options than it was written with, if they agree on reversing the dimensions or it was written MATLAB compatible")
    lab = Lab(ctx)
    cases = all_cases() if ctx.tier == "thorough" else {k: v for k, v in all_cases().items() if not any(
        x in k for x in ("uint32", "int8", "int32", "uint16", "float16", "recarray", "transposed", "strided", "complex128"))}
    for name, a, b in readings(ctx.tier == "thorough"):
        trips(ctx, "same-anyhow", {k: [("x", v), (then(**b), None)] for k, v in cases.items()}, [(name, a)], not_stored, lab=lab)
    ctx.need("round trips of data kinds", 2000)
