"""Compares the model of the checks with real runs (validation of the model only, no check runs this).

usage: /opt/venv/bin/python tools/calibrate.py pairs|other|single [option set names...]

Runs the package on concrete data made from the specs the checks use and
prints what isn't read back as it was.
"""
import collections
import datetime
import fractions
import os
import sys
import uuid
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import numpy as np
import h5py
import hdf5storage
from hdf5storage.utilities import LowLevelFile
from props import trip_rules as tr
from props.data_cases import *


def leaf(t, ):
    if is_c(t):
        return cval(t)
    g = t.tag
    if g == "ext":
        return {"builtins.Ellipsis": ..., "builtins.NotImplemented": NotImplemented}[t.args[0]]
    h = lambda n: sum(ord(c) for c in n)
    if g == "s":
        k = t.args[1]
        w = t.args[2] if len(t.args) > 2 else k
        out = [chr(97 + (h(t.args[0]) + i) % 26) for i in range(k)]
        for i in range(w - k):
            out[i] = chr(0x1F600 + (h(t.args[0]) + i) % 26)
        return "".join(out)
    if g == "y":
        return bytes(97 + (h(t.args[0]) + i) % 26 for i in range(t.args[1]))
    if g == "typed":
        nm, c = t.args[0].args[0], t.args[1].args[0]
        v = h(nm) % 100 + 1
        return {"builtins.int": lambda: v, "builtins.bool": lambda: bool(v % 2), "builtins.float": lambda: v + .5,
                "builtins.complex": lambda: complex(v, v + 1), "builtins.bytearray": lambda: bytearray(b"xyz"), "builtins.slice": lambda: slice(1, None, v),
                "builtins.range": lambda: range(1, 20, v), "datetime.date": lambda: datetime.date(2000, 1, 2), "datetime.time": lambda: datetime.time(1, 2, 3, v),
                "datetime.datetime": lambda: datetime.datetime(2000, 1, 2, 3, 4, 5, v), "datetime.timedelta": lambda: datetime.timedelta(1, 2, v),
                "datetime.timezone": lambda: datetime.timezone(datetime.timedelta(hours=1)), "fractions.Fraction": lambda: fractions.Fraction(1, v)}[c]()
    raise ValueError(t)


def npd(d):
    if isinstance(d, tuple):
        if d[0] == "struct":
            return np.dtype([(a, npd(b)) for a, b in d[1]])
        return np.dtype((npd(d[1]), d[2]))
    if d[0] == ">":
        return npd(d[1:]).newbyteorder(">")
    return np.dtype(d)


def real(s):
    if isinstance(s, Term):
        if s.tag == "rec":
            return tuple(real(x[1]) for x in s.args)
        if s.tag == "arr":
            return [real(x) for x in s.args[0]]
        return leaf(s)
    k = s[0]
    seqs = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "deque": collections.deque}
    if k in seqs:
        return seqs[k](real(x) for x in s[1])
    if k in DICTS:
        return {"dict": dict, "OrderedDict": collections.OrderedDict, "Counter": lambda x: collections.Counter(dict(x))}[k]([(real(a), real(b)) for a, b in s[1]])
    if k == "ChainMap":
        return collections.ChainMap(*[real(x) for x in s[1]])
    if k == "dt":
        return npd(s[1])
    if k == "view":
        a = real(s[2])
        return a.T if s[1] == "transposed" else a[::-1] if s[1] == "reversed" else a[::2]
    _, cont, dt, sh, el = s
    a = np.empty(sh, dtype=npd(dt))
    f = a.reshape(-1)
    for i, e in enumerate(el):
        v = real(e)
        if a.dtype.names and any(isinstance(x, list) for x in v):
            for n, x in zip(a.dtype.names, v):
                f[n][i] = np.array(x).reshape(f[n].shape[1:])
        else:
            f[i] = v
    if cont == "scalar":
        return a[()]
    return a if cont == "ndarray" else np.asmatrix(a) if cont == "matrix" else a.view({"chararray": np.chararray, "recarray": np.recarray}[cont])


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (np.ndarray, np.generic)):
        if a.shape != b.shape or a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
            return False
        if a.dtype.hasobject and a.dtype.names is None:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.names:
            return all(same(np.asarray(a[n]), np.asarray(b[n])) for n in a.dtype.names)
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))
    if isinstance(a, dict):
        return len(a) == len(b) and all(any(same(k, l) and same(v, w) for l, w in b.items()) for k, v in a.items())
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    if isinstance(a, collections.ChainMap):
        return all(same(x, y) for x, y in zip(a.maps, b.maps))
    return a == b


def run(steps, kw):
    mc = hdf5storage.MarshallerCollection()
    o = hdf5storage.Options(marshaller_collection=mc, **kw)
    with h5py.File(str(uuid.uuid4()), "w", driver="core", backing_store=False) as f:
        ll = LowLevelFile(f, o)
        have = {}
        try:
            for at, spec in steps:
                if callable(at):
                    ll = LowLevelFile(f, o)
                    continue
                v = real(spec)
                have[at] = v
                ll.write_data(f, at, v, None)
        except Exception as e:
            return "writing raises %s %s" % (type(e).__name__, str(e)[:80])
        for at, v in have.items():
            try:
                r = ll.read_data(f, at)
            except Exception as e:
                return "reading %s raises %s %s" % (at, type(e).__name__, str(e)[:80])
            if not same(v, r):
                return "%s: %r is read as %r" % (at, v, r)
    return None


def main():
    what = sys.argv[1]
    sets = [o for o in tr.ALL if len(sys.argv) < 3 or o[0] in sys.argv[2:]]
    if what == "single":
        cases = dict(array_cases())
        for c in (object_cases(), value_cases(), dict_cases()):
            cases.update(c)
        cases = {k: [("x", v)] for k, v in cases.items()}
    else:
        cases = tr.pairs("x" if what == "pairs" else "y")
    n = bad = 0
    for name, kw in sets:
        if what == "pairs":
            kw = dict(kw, delete_unused_variables=True)
        for c, steps in cases.items():
            if what == "single" and tr.not_stored(c, kw):
                continue
            n += 1
            r = run(steps, kw)
            if r:
                bad += 1
                print("%s (%s): %s" % (c, name, r[:300]))
    print(n, "runs,", bad, "not as written")


main()
