"""A small model of an HDF5 file with known contents for the interpreter.

The tree is part of the abstract state: st.p["w"] is a sorted tuple of
(path, kind) with kind "group" or "dataset".  Handles are T("h5", path, kind).
What is done to it is recorded in st.p["ev"].
"""

import posixpath

from .common import *

GROUP, DATASET = ext("h5py.Group"), ext("h5py.Dataset")
IS_A = {
    "group": {"h5py.Group", "h5py.HLObject"},
    "dataset": {"h5py.Dataset", "h5py.HLObject"},
}


# What Groups have and Datasets haven't.
OF_GROUPS = frozenset("""get keys values items clear pop popitem update
    setdefault create_group require_group create_dataset require_dataset
    create_dataset_like move copy visit visititems build_virtual_dataset
    """.split())


def node(path, kind="group"):
    return T("h5", path, kind)


def tree(*paths, **kw):
    """tree("/a/", "/a/x") : groups end in a slash."""
    d = {"/": "group"}
    for p in paths:
        q = p.rstrip("/") or "/"
        d[q] = "group" if p.endswith("/") else "dataset"
        up = posixpath.dirname(q)
        while up not in d:
            d[up] = "group"
            up = posixpath.dirname(up)
    return tuple(sorted(d.items()))


def resolve_path(base, name):
    if isinstance(name, bytes):
        name = name.decode("utf-8", "replace")
    p = name if name.startswith("/") else posixpath.join(base, name)
    return "/" + "/".join(x for x in p.split("/") if x not in ("", "."))


class H5World(Property):
    """Property with a file of known contents."""

    cap = 16
    start = (("/", "group"),)
    attrs = {}

    # -- state -----------------------------------------------------------
    def tree(self, st):
        return dict(st.p.get("w", self.start))

    def set_tree(self, st, d):
        st.p["w"] = tuple(sorted(d.items()))

    def ev(self, st, *e):
        st.p["ev"] = st.p.get("ev", ()) + (e,)

    def key(self, it, st):
        return tuple(sorted(((k, v) for k, v in st.p.items() if k != "ev"), key=lambda kv: kv[0])) + (st.p.get("ev"),)

    def children(self, st, path):
        pre = path.rstrip("/") + "/"
        return [p[len(pre):] for p in sorted(self.tree(st)) if p.startswith(pre) and p != path and "/" not in p[len(pre):]]

    def missing(self, it, st, what, n):
        it.throw_named(st, "KeyError", n, it.frames[-1], explicit=False)
        return []

    def remove(self, st, path):
        d = self.tree(st)
        for p in list(d):
            if p == path or p.startswith(path.rstrip("/") + "/"):
                del d[p]
        self.set_tree(st, d)

    def add(self, st, path, kind):
        d = self.tree(st)
        up = posixpath.dirname(path)
        while up not in d:
            d[up] = "group"
            up = posixpath.dirname(up)
        d[path] = kind
        self.set_tree(st, d)

    # -- facts -----------------------------------------------------------
    def decide(self, it, st, atom):
        g, a = atom.tag, atom.args
        if g == "isinst" and a[0].tag == "h5":
            cs = a[1].args if a[1].tag == "tup" else (a[1],)
            if all(c.tag == "ext" for c in cs):
                names = set(IS_A[a[0].args[1]])
                if a[0].args[0] == "/":
                    names.add("h5py.File")
                hit = [c.args[0] in names for c in cs]
                if any(hit):
                    return True
                if all(c.args[0].startswith(("h5py.", "builtins.")) for c in cs):
                    return False
        if g == "isinst" and a[0].tag == "h5attrs" and a[1].tag == "ext":
            if a[1].args[0] == "h5py.AttributeManager":
                return True
        if g == "cmp" and a[0] == "is" and NONE in a[1:]:
            x = a[1] if a[2] is NONE else a[2]
            if x.tag in ("h5", "h5attrs", "h5ref"):
                return False
        if g == "truth" and a[0].tag == "h5":
            return True
        if g == "hasattr" and a[0].tag == "h5" and is_c(a[1]):
            if cval(a[1]) in ("dtype", "shape", "size", "ndim", "chunks"):
                return a[0].args[1] == "dataset"
            if cval(a[1]) in ("keys", "items", "values", "create_group"):
                return a[0].args[1] == "group"
            if cval(a[1]) in ("attrs", "name", "file", "parent", "ref"):
                return True
        return None

    # -- access ----------------------------------------------------------
    def getattr(self, it, st, base, name, n):
        if base.tag != "h5":
            return None
        path, kind = base.args
        if name == "name":
            return [(st, C(path))]
        if name == "attrs":
            return [(st, T("h5attrs", path))]
        if name == "file":
            return [(st, node("/"))]
        if name == "parent":
            return [(st, node(posixpath.dirname(path)))]
        if name == "ref":
            return [(st, T("h5ref", path))]
        if name == "mode" and path == "/":
            return [(st, typed("mode of the file", "builtins.str"))]
        return None

    def lookup(self, st, base, key):
        """(path, kind or None) or None when the name isn't known."""
        k = pyval_or(key, NotConst)
        if not isinstance(k, (str, bytes)):
            return None
        p = resolve_path(base.args[0], k)
        return p, self.tree(st).get(p)

    def getitem(self, it, st, base, idx, n):
        if base.tag == "h5attrs":
            for k, v in self.attrs.get(base.args[0], ()):
                if C(k) is idx:
                    return [(st, v)]
            if is_c(idx):
                return self.missing(it, st, idx, n)
            return None
        if base.tag != "h5":
            return None
        if base.args[1] == "dataset":
            self.ev(st, "load", base.args[0])
            return None
        r = self.lookup(st, base, idx)
        if r is None:
            self.ev(st, "get?", base.args[0], idx)
            return None
        if r[1] is None:
            return self.missing(it, st, idx, n)
        self.ev(st, "get", r[0])
        return [(st, node(*r))]

    def contains(self, it, st, x, coll, n):
        if coll.tag == "h5attrs" and is_c(x):
            return [(st, C(any(k == cval(x) for k, v in self.attrs.get(coll.args[0], ()))))]
        if coll.tag == "h5" and coll.args[1] == "group":
            r = self.lookup(st, coll, x)
            if r is not None:
                return [(st, C(r[1] is not None))]
        return None

    def setitem(self, it, st, base, idx, val, n):
        if base.tag == "h5attrs":
            self.ev(st, "setattr", base.args[0], idx, val)
            return [st]
        if base.tag == "h5":
            if base.args[1] == "dataset":
                self.ev(st, "store", base.args[0], idx, val)
            else:
                self.ev(st, "link", base.args[0], idx, val)
            return [st]
        return None

    def delitem(self, it, st, base, idx, n):
        if base.tag == "h5attrs":
            if is_c(idx) and not any(k == cval(idx) for k, v in self.attrs.get(base.args[0], ())):
                it.throw_named(st, "KeyError", n, it.frames[-1], explicit=False)
                return []
            self.ev(st, "delattr", base.args[0], idx)
            return [st]
        if base.tag == "h5" and base.args[1] == "dataset":
            it.throw_named(st, "TypeError", n, it.frames[-1], explicit=False)
            return []
        if base.tag == "h5":
            r = self.lookup(st, base, idx)
            if r is None:
                self.ev(st, "del?", base.args[0], idx)
                return [st]
            if r[1] is None:
                it.throw_named(st, "KeyError", n, it.frames[-1], explicit=False)
                return []
            st.note("%s: %s is deleted" % (it.loc(n), r[0]))
            self.ev(st, "del", r[0])
            self.remove(st, r[0])
            return [st]
        return None

    def elements(self, it, st, v):
        if v.tag == "h5" and v.args[1] == "group":
            return [C(x) for x in self.children(st, v.args[0])]
        if v.tag == "h5attrs":
            return [C(k) for k, x in self.attrs.get(v.args[0], ())]
        return None

    # -- calls -----------------------------------------------------------
    def call(self, it, st, f, args, kw, n, fr):
        if f.tag == "attr" and f.args[0].tag == "h5":
            return self.h5_call(it, st, f.args[0], f.args[1], list(args), dict((k, v) for k, v in kw), n, fr)
        if f.tag == "attr" and f.args[0].tag == "h5attrs":
            return self.attrs_call(it, st, f.args[0], f.args[1], list(args), dict((k, v) for k, v in kw), n, fr)
        if f is ext("builtins.len") and len(args) == 1 and args[0].tag in ("h5", "h5attrs"):
            e = self.elements(it, st, args[0])
            if e is not None:
                return [(st, C(len(e)))]
        if f is ext("builtins.iter") and len(args) == 1 and args[0].tag in ("h5", "h5attrs"):
            e = self.elements(it, st, args[0])
            if e is not None:
                return [(st, it.alloc(st, Obj("list", data=tuple((x, frozenset()) for x in e)), n))]
        return None

    def members(self, it, st, items, kind, n):
        return [(st, it.alloc(st, Obj(kind, data=tuple((x, frozenset()) for x in items)), n))]

    def h5_call(self, it, st, base, m, a, kw, n, fr):
        path, kind = base.args
        if kind == "dataset":
            if m in ("write_direct", "resize"):
                self.ev(st, "store", path, C(m), NONE)
            if m in OF_GROUPS:
                it.throw_named(st, "AttributeError", n, fr, explicit=False)
                return []
            return None
        if m in ("keys", "__iter__"):
            return self.members(it, st, [C(x) for x in self.children(st, path)], "set", n)
        if m in ("items", "values"):
            out = []
            d = self.tree(st)
            for x in self.children(st, path):
                p = resolve_path(path, x)
                h = node(p, d[p])
                out.append(T("tup", C(x), h) if m == "items" else h)
            return self.members(it, st, out, "list", n)
        name = a[0] if a else kw.get("name", kw.get("path"))
        r = self.lookup(st, base, name) if name is not None else None
        if m == "get":
            d = a[1] if len(a) > 1 else kw.get("default", NONE)
            if r is None:
                self.ev(st, "get?", path, name)
                return None
            if r[1] is None:
                return [(st, d)]
            if "getclass" in kw or len(a) > 2:
                return [(st, GROUP if r[1] == "group" else DATASET)]
            self.ev(st, "get", r[0])
            return [(st, node(*r))]
        if m == "__contains__" and r is not None:
            return [(st, C(r[1] is not None))]
        if m == "__getitem__":
            return self.getitem(it, st, base, a[0], n)
        if m == "__delitem__":
            return [(x, NONE) for x in self.delitem(it, st, base, a[0], n)]
        if m in ("create_group", "require_group", "create_dataset", "require_dataset"):
            k = "group" if m.endswith("group") else "dataset"
            if r is None:
                self.ev(st, m + "?", path, name)
                return None
            if r[1] is not None:
                if m.startswith("require") and r[1] == k:
                    self.ev(st, "get", r[0])
                    return [(st, node(*r))]
                it.throw_named(st, "TypeError" if m.startswith("require") else "ValueError", n, fr, explicit=False)
                return []
            self.ev(st, m, r[0], tuple(a[1:]), tuple(sorted(((x, y) for x, y in kw.items()), key=lambda z: str(z[0]))))
            self.add(st, r[0], k)
            return [(st, node(r[0], k))]
        if m == "pop" and r is not None:
            if r[1] is None:
                if len(a) > 1:
                    return [(st, a[1])]
                return self.missing(it, st, name, n)
            self.ev(st, "del", r[0])
            self.remove(st, r[0])
            return [(st, node(*r))]
        if m == "clear":
            for x in self.children(st, path):
                self.ev(st, "del", resolve_path(path, x))
                self.remove(st, resolve_path(path, x))
            return [(st, NONE)]
        if m in ("move", "copy", "update", "popitem", "setdefault"):
            self.ev(st, m + "?", path, tuple(a))
        return None

    def attrs_call(self, it, st, base, m, a, kw, n, fr):
        path = base.args[0]
        known = self.attrs.get(path, ())
        if m in ("keys", "__iter__"):
            return self.members(it, st, [C(k) for k, v in known], "set", n)
        if m == "items":
            return self.members(it, st, [T("tup", C(k), v) for k, v in known], "list", n)
        if m == "values":
            return self.members(it, st, [v for k, v in known], "list", n)
        name = a[0] if a else kw.get("name")
        if m == "get" and name is not None and is_c(name):
            d = a[1] if len(a) > 1 else kw.get("default", NONE)
            for k, v in known:
                if C(k) is name:
                    return [(st, v)]
            return [(st, d)]
        if m in ("modify", "create", "__setitem__"):
            v = a[1] if len(a) > 1 else kw.get("value", kw.get("data", T("top")))
            self.ev(st, "setattr", path, name, v)
            return [(st, NONE)]
        if m == "__delitem__":
            return [(x, NONE) for x in self.delitem(it, st, base, name, n)]
        if m in ("update", "clear", "pop", "popitem", "setdefault"):
            self.ev(st, "setattr?", path, tuple(a))
        return None
