"""Rules about the marshaller collection and plugins (C12, C13, C14, C26)."""

from .common import *
from .h5world import H5World, node, tree

DRV = "__rules_coll"
RUN = "__rules_coll_run"
MARSH = "hdf5storage.Marshallers"


class ModWorld(Property):
    """Knows which modules are loaded, can be found and can be imported.

    st.p["mods"] gives the state of modules: "here" (not loaded, can be
    imported), "broken" (can be found, the import fails) or "gone"; all others
    are loaded.  st.p["ev"] holds the imports.
    """

    cap = 32
    plugins = ()

    def ev(self, st, *e):
        st.p["ev"] = st.p.get("ev", ()) + (e,)

    def mod(self, st, name):
        return dict(st.p.get("mods", ())).get(name, "loaded")

    def set_mod(self, st, name, what):
        d = dict(st.p.get("mods", ()))
        d[name] = what
        st.p["mods"] = tuple(sorted(d.items()))

    def found(self, st, name):
        return self.mod(st, name) != "gone"

    def contains(self, it, st, x, coll, n):
        if coll is ext("sys.modules") and is_c(x):
            return [(st, C(self.mod(st, cval(x)) == "loaded"))]
        return None

    def may_raise(self, it, st, f, n):
        return False

    def call(self, it, st, f, args, kw, n, fr):
        if f.tag == "ext":
            name = f.args[0]
            if name == "builtins.callable" and args:
                if args[0].tag in ("epfun", "fn", "cls", "bm"):
                    return [(st, TRUE)]
                if args[0].tag in ("c", "tup"):
                    return [(st, FALSE)]
            a = list(args) + [v for k, v in kw if k in ("name", "fullname", "package")]
            if name == "inspect.getmembers" and args and args[0].tag == "mod":
                return self.module_members(it, st, args, kw, n, fr)
            if name in ("pkgutil.find_loader", "importlib.util.find_spec", "importlib.find_loader", "pkgutil.get_loader") and a and is_c(a[0]):
                m = cval(a[0])
                if self.found(st, m):
                    return [(st, T("spec", m))]
                parent = m.rpartition(".")[0]
                if parent and not self.found(st, parent):
                    it.throw_named(st, "ModuleNotFoundError", n, fr, explicit=False)
                    return []
                return [(st, NONE)]
            if name in ("importlib.import_module", "builtins.__import__") and a and is_c(a[0]):
                m = cval(a[0])
                self.ev(st, "import", m)
                how = self.mod(st, m)
                if how in ("loaded", "here"):
                    self.set_mod(st, m, "loaded")
                    return [(st, T("ext", m))]
                it.throw_named(st, "ImportError" if how == "broken" else "ModuleNotFoundError", n, fr, explicit=False)
                return []
            if name == "sys.modules.get" or name == "sys.modules.keys":
                if name.endswith("get") and a and is_c(a[0]):
                    if self.mod(st, cval(a[0])) == "loaded":
                        return [(st, T("ext", cval(a[0])))]
                    return [(st, a[1] if len(a) > 1 else NONE)]
            if name in ("pkg_resources.iter_entry_points", "importlib.metadata.entry_points"):
                self.ev(st, "entry_points", *args)
                if a and is_c(a[0]) and cval(a[0]) != "hdf5storage.marshallers.plugins":
                    return [(st, T("tup"))]
                return [(st, T("tup", *[T("ep", i) for i in range(len(self.plugins))]))]
        if f.tag == "attr" and f.args[0].tag == "ep":
            return self.entry_point(it, st, f.args[0].args[0], f.args[1], args, n, fr)
        if f.tag == "epfun":
            return self.plugin(it, st, f.args[0], args, n, fr)
        return None

    def getattr(self, it, st, base, name, n):
        if base.tag == "ep":
            p = self.plugins[base.args[0]]
            if name == "name":
                return [(st, C(p["version"]))]
            if name in ("module_name", "module"):
                return [(st, C("plugin%d" % base.args[0]))]
        return None

    def decide(self, it, st, atom):
        g, a = atom.tag, atom.args
        if g == "cmp" and a[0] == "is" and NONE in a[1:]:
            x = a[1] if a[2] is NONE else a[2]
            if x.tag in ("spec", "ep", "epfun"):
                return False
        if g == "truth" and a[0].tag in ("spec", "ep", "epfun"):
            return True
        return None

    def module_members(self, it, st, args, kw, n, fr):
        m = it.prog.modules[args[0].args[0]]
        pred = args[1] if len(args) > 1 else dict(kw).get("predicate")
        items = []
        for name in sorted(m.ns):
            b = m.ns[name]
            if b[0] == "cls":
                items.append((name, T("cls", b[1].qual)))
            elif b[0] == "fn":
                items.append((name, it.fn_term(b)))
            elif b[0] == "ext" and isinstance(b[1], str):
                items.append((name, ext(b[1])))
        out = [(st, ())]
        for name, t in items:
            if t.tag != "cls" and pred is not None:
                # The predicates in use take classes of the package only.
                continue
            nxt = []
            for x, got in out:
                if pred is None:
                    nxt.append((x, got + (T("tup", C(name), t),)))
                    continue
                for y, v in it.call(pred, [t], [], x, n, fr):
                    for z, b in self.truths(it, y, v):
                        nxt.append((z, got + ((T("tup", C(name), t),) if b else ())))
            out = nxt
        return [(x, it.alloc(x, Obj("list", data=tuple((g, frozenset()) for g in got)), n)) for x, got in out]

    def truths(self, it, st, v):
        r = it.truth(v, st)
        if r is TRUE or r is True:
            return [(st, True)]
        if r is FALSE or r is False:
            return [(st, False)]
        return [(st.fork(), True), (st, False)]

    def entry_point(self, it, st, i, meth, args, n, fr):
        p = self.plugins[i]
        if meth in ("load", "resolve", "require"):
            self.ev(st, "load", i)
            if p.get("load") == "raises":
                it.throw_named(st, p.get("exc", "ImportError"), n, fr, explicit=False)
                return []
            if p.get("load") == "value":
                return [(st, C(3))]
            return [(st, T("epfun", i))]
        return None

    def plugin(self, it, st, i, args, n, fr):
        p = self.plugins[i]
        self.ev(st, "plugin", i, *args)
        r = p["result"]
        if r == "raises":
            it.throw_named(st, p.get("exc", "ValueError"), n, fr, explicit=False)
            return []
        if isinstance(r, str):
            # A function of the driver making the result.
            return it.call(fn(DRV + "." + r), [], [], st, n, fr)
        return [(st, C(r))]


# ------------------------------------------------------------------ driver

DRIVER_HEAD = '''
import collections
import hdf5storage
from hdf5storage import MarshallerCollection
from hdf5storage.Marshallers import TypeMarshaller

class Own:
    pass

class Own2:
    pass

class Unknown:
    pass

class Outer:
    class Own3:
        pass

def fails():
    raise ValueError("no")
'''

# label: (types, type strings, MATLAB classes, parent modules, modules)
USERS = {
    "A": (("int", "Own"), ("int", "a.Own"), ("double",), (), ()),
    "B": (("int", "'fancy.B'"), ("int", "b.B"), ("double", "b_class"), (), ()),
    "D": (("collections.deque", "Own2"), ("fancy.B", "a.Own"), ("b_class", "struct"), (), ()),
    "E": ((), (), (), (), ()),
    "R": (("int", "Own"), ("a.Own", "fancy.B"), ("double", "b_class"), ("pm",), ("qm",)),
    "O": (("Outer.Own3",), ("o.Own3",), ("o_class",), (), ()),
    "P": (("int", "float", "Own"), ("int", "float", "p"), ("double", "single", "b_class"), (), ()),
    "Q": (("bool", "float", "Own2"), ("bool", "float", "q"), ("single", "b_class"), (), ()),
    "M": (("Own",), ("m",), ("m_class",), ("pm", "qm"), ("pm.sub", "qm")),
    "N": (("Own2",), ("n",), ("n_class",), (), ("lone",)),
}


def user_class(label):
    tps, tss, mcs, par, req = USERS[label]
    return '''
class %s(TypeMarshaller):
    def __init__(self):
        TypeMarshaller.__init__(self)
        self.label = %r
        self.required_parent_modules = %r
        self.required_modules = %r
        self.types = (%s)
        self.python_type_strings = %r
        self.matlab_classes = %r
        self.update_type_lookups()

    def read(self, f, dsetgrp, attributes):
        return ("read", self.label)

    def read_approximate(self, f, dsetgrp, attributes):
        return ("approximate", self.label)

    def write(self, f, grp, name, data, type_string):
        grp.create_group(name)
        return ("write", self.label)
''' % (label, label, par, req, "".join(t + ", " for t in tps), tss, mcs) if tps else '''
class %s(TypeMarshaller):
    def __init__(self):
        TypeMarshaller.__init__(self)
        self.label = %r
''' % (label, label)


def dotted(it, t):
    """The dotted name of a type given as a class or as a string."""
    if is_c(t):
        return cval(t)
    if t.tag == "ext":
        return t.args[0]
    if t.tag == "cls":
        return t.args[0]
    return None


def elems(it, st, t):
    e = it.exact_items(st, t)
    return None if e is None else list(e)


class Tables:
    """What the builtin marshallers and those of the driver handle."""

    def __init__(self, ctx, drv=DRV):
        self.types, self.strings, self.classes = {}, {}, {}
        self.order = []
        self.raw = {}
        prog = ctx.prog
        it0 = Interp(prog)
        ns = prog.modules[MARSH].ns
        for name in sorted(ns):
            b = ns[name]
            if b[0] != "cls" or TM not in it0.mro(b[1].qual):
                continue
            self.add(ctx, name, T("cls", b[1].qual))
            self.order.append(name)
        if len(self.order) < 3:
            raise AnalysisBroken("no marshallers in %s" % MARSH)
        for label in USERS:
            self.add(ctx, label, T("cls", "%s.%s" % (drv, label)))

    def add(self, ctx, label, cls):
        it, prop, rets, raises = ctx.run(cls, ModWorld, lambda it: (State(), [], []))
        if len(rets) != 1:
            raise AnalysisBroken("constructing the marshaller %s has %d outcomes" % (label, len(rets)))
        st, o = rets[0]
        d = it.obj(st, o).data
        got = []
        for k in ("types", "python_type_strings", "matlab_classes"):
            e = elems(it, st, d[k]) if k in d else None
            if e is None:
                raise AnalysisBroken("%s of %s can't be determined" % (k, label))
            got.append(e)
        self.types[label] = [dotted(it, x) for x in got[0]]
        self.strings[label] = [pyval_or(x, None) for x in got[1]]
        self.classes[label] = [pyval_or(x, None) for x in got[2]]
        self.raw[label] = (got[0], it, st, o)

    def keys(self):
        """The keys to look up: dotted types, type strings, classes."""
        flat = lambda d: sorted({x for v in d.values() for x in v if isinstance(x, str)})
        return (flat(self.types) + ["not.There", "", DRV + ".Unknown", "int"], flat(self.strings) + ["nope", "", "builtins.int"],
                flat(self.classes) + ["nope", ""])

    def terms(self):
        """{dotted name: class terms it stands for}."""
        out = {}
        for label, (tps, it, st, o) in self.raw.items():
            for t in tps:
                if not is_c(t):
                    out.setdefault(dotted(it, t), t)
        out[DRV + ".Unknown"] = T("cls", DRV + ".Unknown")
        return out


KINDS = ("type", "type_string", "matlab_class")


class Lookups:
    """Runs scenarios of the driver and compares all the lookups."""

    def __init__(self, ctx, tables, few=False):
        self.ctx, self.tables = ctx, tables
        tks, sks, cks = tables.keys()
        if few:
            # What the plugins handle and a few others.
            flat = lambda d: {x for l in ("P", "Q") for x in d[l]}
            tks = sorted(flat(tables.types)) + ["builtins.str", "numpy.ndarray", "not.There"]
            sks = sorted(flat(tables.strings)) + ["str", "nope"]
            cks = sorted(flat(tables.classes)) + ["char", "nope"]
        terms = tables.terms()
        # (kind, key, argument)
        # What a class inside another one is called in full isn't said.
        self.queries = [("type", k, C(k)) for k in tks if not k.endswith("Outer.Own3")] + [("type", k, terms[k]) for k in tks if k in terms]
        self.queries += [("type_string", k, C(k)) for k in sks] + [("matlab_class", k, C(k)) for k in cks]
        lines = ["def ask(mc, q):", "    return ("]
        for i, (kind, k, a) in enumerate(self.queries):
            lines.append("        mc.get_marshaller_for_%s(q[%d])," % (kind, i))
        self.source = "\n".join(lines + ["    )", ""])

    def expected(self, kind, key, users, priority, plugins=()):
        t = {"type": self.tables.types, "type_string": self.tables.strings, "matlab_class": self.tables.classes}[kind]
        for p in priority:
            for label in {"builtin": self.tables.order, "plugin": plugins, "user": users}[p]:
                if key in t[label]:
                    return label
        return None

    def label(self, it, st, t):
        """Label of a marshaller term: a str, None for None, False unknown."""
        if t is NONE:
            return None
        o = it.obj(st, t)
        if o is None or o.kind != "inst":
            return False
        l = o.data.get("label")
        if l is not None and is_c(l):
            return cval(l)
        return o.cls.split(".")[-1]

    def ask(self, st, mc, make, what):
        def build(it):
            return st.fork(), [mc, T("tup", *[a for k, n, a in self.queries])], []
        return self.ctx.attempt("lookups after " + what, fn(RUN + ".ask"), make, build)

    def compare(self, rule, what, st, mc, users, priority, make=ModWorld, plugins=(), flags=None):
        """All answers of the collection are the ones expected."""
        r = self.ask(st, mc, make, what)
        if r is None:
            return
        it, prop, rets, raises = r
        if not rets:
            e = raises[0][1] if raises else None
            self.ctx.violation(rule, what, "the lookups raise %s after %s" % (e.name if e else "nothing", what), e.site if e else "", st.history())
            return
        if len(rets) > 1 or raises:
            self.ctx.note_undecided("%s: %d outcomes of the lookups" % (what, len(rets) + len(raises)))
        for i, (kind, key, arg) in enumerate(self.queries):
            want = self.expected(kind, key, users, priority, plugins)
            verdicts = []
            for x, v in rets:
                if v.tag != "tup" or v.args[i].tag != "tup" or len(v.args[i].args) != 2:
                    verdicts.append(None)
                    continue
                got = self.label(it, x, v.args[i].args[0])
                flag = v.args[i].args[1]
                if got is False or not is_c(flag):
                    verdicts.append(None)
                    continue
                wf = want is not None
                if flags is not None and want in flags:
                    wf = flags[want]
                verdicts.append(None if (got == want and cval(flag) is wf) else (got, cval(flag), wf))
                self.ctx.count("answers_compared")
            if verdicts and all(v is not None for v in verdicts):
                got, f, wf = verdicts[0]
                self.ctx.violation(
                    rule, "%s:%s" % (what, kind),
                    "after %s the lookup of the %s %s gives %s, %s instead of %s, %s"
                    % (what, kind.replace("_", " "), show(arg), got, f, want, wf), "", st.history())
                break


PRIORITIES = [("builtin", "plugin", "user"), ("user", "plugin", "builtin"), ("plugin", "user", "builtin"),
              ("user", "builtin", "plugin"), ("plugin", "builtin", "user"), ("builtin", "user", "plugin")]


class PluginWorld(ModWorld):
    """Plugins making the marshallers P and Q."""

    plugins = ({"version": "1.0", "result": "make_p"}, {"version": "1.0", "result": "make_q"})


PLUGIN_SRC = '''
def make_p():
    return (P(),)

def make_q():
    return [Q()]
'''

# name: (statements, labels of the user marshallers afterwards)
SCENARIOS = [
    ("constructing", "", ""),
    ("constructing with one marshaller", "M:marshallers=a", "A"),
    ("constructing with a list", "M:marshallers=[a, b]", "AB"),
    ("constructing with a generator", "M:marshallers=(x for x in (b, a))", "BA"),
    ("adding one", "mc.add_marshaller(a)", "A"),
    ("adding a list", "mc.add_marshaller([b, a])", "BA"),
    ("adding a tuple", "mc.add_marshaller((d, a, b))", "DAB"),
    ("adding a generator", "mc.add_marshaller(x for x in (a, d))", "AD"),
    ("adding a map", "mc.add_marshaller(map(lambda x: x, [a, d]))", "AD"),
    ("adding one after another", "mc.add_marshaller(b)\nmc.add_marshaller(a)", "BA"),
    ("adding twice", "mc.add_marshaller(a)\nmc.add_marshaller(b)\nmc.add_marshaller(a)", "AB"),
    ("adding twice and removing once", "mc.add_marshaller(a)\nmc.add_marshaller(a)\nmc.remove_marshaller(a)", ""),
    ("adding one twice at once and removing it", "mc.add_marshaller([a, a])\nmc.remove_marshaller(a)", ""),
    ("adding one without types", "mc.add_marshaller(e)\nmc.add_marshaller(a)", "EA"),
    ("adding one for a class in another one", "mc.add_marshaller([a, O()])", "AO"),
    ("adding two of a class and removing one", "a2 = A()\nmc.add_marshaller([a, b, a2])\nmc.remove_marshaller(a)", "BA"),
    ("adding one that needs modules and one that doesn't", "mc.add_marshaller([R(), a, b])", "RAB"),
    ("adding one that needs no modules and one that does", "mc.add_marshaller([a, b, R()])", "ABR"),
    ("adding nothing", "mc.add_marshaller(())\nmc.add_marshaller([])", ""),
    ("adding something else", "mc.add_marshaller(a)\ntry:\n    mc.add_marshaller(3)\nexcept TypeError:\n    pass", "A"),
    ("adding something else at the end", "try:\n    mc.add_marshaller([a, b, 'x'])\nexcept TypeError:\n    pass", ""),
    ("adding something else in the middle", "mc.add_marshaller(d)\ntry:\n    mc.add_marshaller([a, None, b])\nexcept TypeError:\n    pass", "D"),
    ("adding a marshaller class", "try:\n    mc.add_marshaller([a, B])\nexcept TypeError:\n    pass", ""),
    ("adding something else and then another", "try:\n    mc.add_marshaller([a, 3])\nexcept TypeError:\n    pass\nmc.add_marshaller(b)", "B"),
    ("adding a generator with something else", "try:\n    mc.add_marshaller(x for x in (a, 4))\nexcept TypeError:\n    pass", ""),
    ("adding a generator that raises", "try:\n    mc.add_marshaller(bad(a))\nexcept ValueError:\n    pass", ""),
    ("adding a generator that raises and another", "try:\n    mc.add_marshaller(bad(a))\nexcept ValueError:\n    pass\nmc.add_marshaller(b)", "B"),
    ("removing", "mc.add_marshaller([a, b])\nmc.remove_marshaller(a)", "B"),
    ("removing several", "mc.add_marshaller([a, b, d])\nmc.remove_marshaller([a, d])", "B"),
    ("removing a generator", "mc.add_marshaller([a, b, d])\nmc.remove_marshaller(x for x in (d, b))", "A"),
    ("removing the last one", "mc.add_marshaller([a, b])\nmc.remove_marshaller(b)", "A"),
    ("removing what isn't there", "mc.add_marshaller(a)\nmc.remove_marshaller(b)", "A"),
    ("removing what isn't there and what is", "mc.add_marshaller([a, d])\nmc.remove_marshaller([b, a])", "D"),
    ("removing and adding again", "mc.add_marshaller([a, b])\nmc.remove_marshaller(a)\nmc.add_marshaller(a)", "BA"),
    ("removing a builtin", "mc.add_marshaller(a)\nm = mc.get_marshaller_for_type('builtins.str')[0]\nmc.remove_marshaller(m)", "A"),
    ("removing a builtin with a user one", "mc.add_marshaller(a)\nm = mc.get_marshaller_for_type_string('dict')[0]\nmc.remove_marshaller([m, a])", ""),
    ("clearing", "mc.add_marshaller([a, b])\nmc.clear_marshallers()", ""),
    ("clearing nothing", "mc.clear_marshallers()", ""),
    ("clearing and adding", "mc.add_marshaller([a, b])\nmc.clear_marshallers()\nmc.add_marshaller(d)", "D"),
    ("changing the list given", "l = [a]\nmc.add_marshaller(l)\nl.append(b)\nl.remove(a)", "A"),
    ("changing another collection", "mc.add_marshaller(a)\nm2 = MarshallerCollection(marshallers=[b])\nm2.add_marshaller(d)\nm2.clear_marshallers()", "A"),
    ("changing the priority list given", "P:", "A"),
]


def scenario_source(i, sc, prio, plugins):
    name, body, users = sc
    args = ["priority=%r" % (prio,)]
    if plugins:
        args.append("load_plugins=True")
    pre = ""
    post = ""
    if body.startswith("M:"):
        args.append(body[2:])
        body = ""
    elif body.startswith("P:"):
        pre = "    pr = list(%r)\n" % (prio,)
        args[0] = "priority=pr"
        body = "pr.reverse()\nmc.add_marshaller(a)"
    text = "def s%d():\n    a = A()\n    b = B()\n    d = D()\n    e = E()\n%s    mc = MarshallerCollection(%s)\n" % (i, pre, ", ".join(args))
    for line in body.splitlines():
        text += "    %s\n" % line
    return text + "    return mc\n"


BAD_SRC = '''
def bad(m):
    yield m
    raise ValueError("no")
'''


def make_driver(ctx, extra, few=False):
    """The classes are in one driver module, what uses them in another."""
    src = DRIVER_HEAD + "".join(user_class(l) for l in USERS) + PLUGIN_SRC + BAD_SRC
    ctx.prog.add_driver(DRV, src)
    tables = Tables(ctx)
    look = Lookups(ctx, tables, few)
    names = sorted(USERS) + ["make_p", "make_q", "bad", "fails", "Own", "Own2", "Unknown"]
    ctx.prog.add_driver(RUN, "import hdf5storage\nfrom hdf5storage import MarshallerCollection\nfrom %s import %s\n"
                        % (DRV, ", ".join(names)) + look.source + extra)
    return tables, look


def check_c12(ctx):
    ctx.rule("C12.lookups", "the lookups give for every type, type string and MATLAB class the first marshaller handling it in the order of the priority")
    ctx.prog.cls(MC)
    runs = []
    for sc in SCENARIOS:
        for prio in PRIORITIES[:2] if ctx.tier == "quick" else PRIORITIES:
            runs.append((sc, prio, False))
    for prio in PRIORITIES:
        for k in (0, 6, 9, 19, 27, 36, 38):
            runs.append((SCENARIOS[k], prio, True))
    extra = "".join(scenario_source(i, sc, p, pl) for i, (sc, p, pl) in enumerate(runs))
    tables, look = make_driver(ctx, extra)
    for i, ((name, body, users), prio, pl) in enumerate(runs):
        make = PluginWorld if pl else ModWorld
        what = name + (" with plugins" if pl else "")
        r = ctx.attempt(what, fn("%s.s%d" % (RUN, i)), make, lambda it: (State(), [], []))
        if r is None:
            continue
        it, prop, rets, raises = r
        ctx.count("scenarios")
        if not rets:
            e = raises[0][1] if raises else None
            ctx.violation("C12.lookups", what, "%s raises %s" % (what, e.name if e else "nothing"), e.site if e else "",
                          raises[0][0].history() if raises else ())
            continue
        if len(rets) > 1 or raises:
            ctx.note_undecided("%s: %d outcomes" % (what, len(rets) + len(raises)))
            if len(rets) > 1:
                continue
        for st, mc in rets:
            look.compare("C12.lookups", what, st, mc, list(users), prio, make, ["P", "Q"] if pl else [])
    ctx.sample("%d keys looked up after each of %d scenarios" % (len(look.queries), len(runs)))
    ctx.need("answers_compared", 500)


# --------------------------------------------------------------- C13: tables

PLAIN = {"NoneType", "ellipsis", "NotImplementedType"}


def type_strings_for(t):
    """The type strings a type may have."""
    m, _, n = t.rpartition(".")
    out = {t}
    if m == "builtins" and n not in PLAIN:
        out = {n}
    if t == "builtins.int":
        out.add("long")
    return out


def check_c13(ctx):
    ctx.rule("C13.positions", "every builtin marshaller has as many type strings as types and its lookups map them to each other position by position")
    ctx.rule("C13.unique", "no type and no type string is handled by two builtin marshallers")
    ctx.rule("C13.names", "each type string is the one earlier versions wrote for the type")
    ctx.rule("C13.classes", "no MATLAB class is claimed by two builtin marshallers")
    ctx.rule("C13.kind", "data without Python metadata is read back by its MATLAB class as data of the same kind")
    tables, look = make_driver(ctx, "")
    seen = {"type": {}, "type string": {}, "MATLAB class": {}}
    for label in tables.order:
        tps, sts = tables.types[label], tables.strings[label]
        loc = ctx.prog.modules[MARSH].path
        if len(tps) != len(sts):
            ctx.violation("C13.positions", label, "%s has %d types and %d type strings" % (label, len(tps), len(sts)), loc)
        for what, l in (("type", tps), ("type string", sts), ("MATLAB class", tables.classes[label])):
            for x in dict.fromkeys(l):
                if x is None:
                    ctx.note_undecided("a %s of %s" % (what, label))
                    continue
                ctx.count("entries")
                if x in seen[what]:
                    ctx.violation("C13.classes" if what == "MATLAB class" else "C13.unique", "%s:%s" % (what, x),
                                  "the %s %s is handled by %s and %s" % (what, x, seen[what][x], label), loc)
                seen[what].setdefault(x, label)
        for t, s in zip(tps, sts):
            if t is not None and s is not None and s not in type_strings_for(t):
                ctx.violation("C13.names", "%s:%s" % (label, t), "%s stores the type %s as %s" % (label, t, s), loc)
        check_maps(ctx, tables, label, loc)
    ctx.sample("%d marshallers, %d types, %d type strings" % (len(tables.order), len(seen["type"]), len(seen["type string"])))
    check_classes(ctx)
    ctx.need("entries", 60)


def check_maps(ctx, tables, label, loc):
    raw, it, st, o = tables.raw[label]
    d = it.obj(st, o).data
    fw, bw = (it.obj(st, d[k]) if k in d else None for k in ("type_to_typestring", "typestring_to_type"))
    if fw is None or bw is None or fw.kind != "dict" or bw.kind != "dict" or not fw.exact or not bw.exact:
        ctx.note_undecided("the lookups of %s" % label)
        return
    strings = tables.strings[label]
    if len(raw) != len(strings):
        return
    ok = {}
    for t, s in zip(raw, strings):
        ok.setdefault(dotted(it, t), set()).add(s)
    for k, (v, must) in fw.data.items():
        if is_c(v) and dotted(it, k) in ok and cval(v) not in ok[dotted(it, k)]:
            ctx.violation("C13.positions", "%s:%s" % (label, show(k)), "%s gives the type %s the type string %s" % (label, show(k), show(v)), loc)
    for k, (v, must) in bw.data.items():
        if is_c(k) and dotted(it, v) is not None and cval(k) not in ok.get(dotted(it, v), ()):
            ctx.violation("C13.positions", "%s:%s" % (label, show(k)), "%s reads the type string %s as %s" % (label, show(k), show(v)), loc)
    for t, s in zip(raw, strings):
        if t not in fw.data:
            ctx.violation("C13.positions", "%s:%s" % (label, show(t)), "%s finds no type string for its type %s" % (label, show(t)), loc)
        if C(s) not in bw.data:
            ctx.violation("C13.positions", "%s:%s" % (label, s), "%s finds no type for its type string %s" % (label, s), loc)
        ctx.count("pairs")


def group(d):
    """The kind of data a dtype is of."""
    from .numworld import nat
    d = nat(d) if isinstance(d, str) else d
    if isinstance(d, str) and d[:1] in "SU":
        return "text"
    return d


def check_classes(ctx):
    """Data of every kind written with MATLAB metadata only."""
    from .data_cases import Diff

    from .trip_rules import ML, not_stored, trips
    from .meta_rules import NOPY, all_cases, kind_of

    def compare(h, it, st, v):
        a, b = kind_of(h.it, h.st, h.v), kind_of(it, st, v)
        if a is None or b is None:
            raise Diff(False, "", "a kind that isn't known")
        if a.dtype is None or isinstance(a.dtype, tuple) or not group(a.dtype):
            return
        if b.dtype is None:
            raise Diff(True, "", "a dict for %s" % (a.dtype,))
        lost = {"complex64": "float32", "complex128": "float64"}     # Of data without elements
        if a.shape is not None and 0 in a.shape and lost.get(group(a.dtype)) == group(b.dtype):
            return
        if group(a.dtype) != group(b.dtype):
            raise Diff(True, "", "%s for %s" % (b.dtype, a.dtype))
    cases = all_cases()
    trips(ctx, "C13.kind", cases, [o for o in NOPY if o[1].get("matlab_compatible")], not_stored, compare=compare)


# -------------------------------------------------------- C14: their modules

class IOWorld(ModWorld, H5World):
    """Modules and a file."""

    start = tree("/x")

    def call(self, it, st, f, args, kw, n, fr):
        r = ModWorld.call(self, it, st, f, args, kw, n, fr)
        return H5World.call(self, it, st, f, args, kw, n, fr) if r is None else r

    def contains(self, it, st, x, coll, n):
        r = ModWorld.contains(self, it, st, x, coll, n)
        return H5World.contains(self, it, st, x, coll, n) if r is None else r

    def getattr(self, it, st, base, name, n):
        r = ModWorld.getattr(self, it, st, base, name, n)
        return H5World.getattr(self, it, st, base, name, n) if r is None else r

    def decide(self, it, st, atom):
        r = ModWorld.decide(self, it, st, atom)
        return H5World.decide(self, it, st, atom) if r is None else r


C14_SRC = """
from hdf5storage.utilities import LowLevelFile

def make(lazy):
    return MarshallerCollection(lazy_loading=lazy, marshallers=[M(), N(), A()])

def type_string(mc, k):
    return mc.get_marshaller_for_type_string(k)

def matlab_class(mc, k):
    return mc.get_marshaller_for_matlab_class(k)

def type(mc, k):
    return mc.get_marshaller_for_type(k)

def llf(mc, f):
    return LowLevelFile(f, hdf5storage.Options(matlab_compatible=False, marshaller_collection=mc))

def read(mc, f):
    return llf(mc, f).read_data(f, "x")

def write(mc, f, data):
    return llf(mc, f).write_data(f, "y", data, None)
"""

MOD_WORLDS = [
    {},
    {"pm.sub": "here"},
    {"pm.sub": "here", "pm": "here"},
    {"pm.sub": "here", "pm": "here", "qm": "here"},
    {"pm.sub": "broken"},
    {"pm.sub": "broken", "pm": "here", "qm": "here"},
    {"pm.sub": "gone", "pm": "here"},
    {"pm.sub": "here", "qm": "broken"},
    {"pm.sub": "here", "pm": "gone"},
    {"pm.sub": "here", "qm": "gone"},
    {"pm.sub": "gone", "pm": "gone", "qm": "gone"},
    {"lone": "here"},
    {"lone": "broken"},
    {"lone": "gone"},
    {"lone": "here", "pm.sub": "gone"},
]
KEYS14 = {"M": {"type": T("cls", DRV + ".Own"), "type_string": C("m"), "matlab_class": C("m_class")},
          "N": {"type": C(DRV + ".Own2"), "type_string": C("n"), "matlab_class": C("n_class")}}


def importable(label, mods):
    """(are the parent modules there, are all modules loaded, can they be?)"""
    par, req = USERS[label][3:]
    how = lambda m: mods.get(m, "loaded")
    return (all(how(m) != "gone" for m in par), all(how(m) == "loaded" for m in req),
            all(how(m) in ("loaded", "here") for m in req))


def imports(st):
    return [e[1] for e in st.p.get("ev", ()) if e[0] == "import"]


def one(ctx, what, r, rule="C14.outcome"):
    """The only outcome of a run, or None."""
    if r is None:
        return None
    it, prop, rets, raises = r
    if len(rets) == 1 and not raises:
        return it, rets[0][0], rets[0][1]
    if not rets and raises and all(e.name is not None for st, e in raises):
        ctx.violation(rule, what.split(":")[0], "%s raises %s" % (what, raises[0][1].name), raises[0][1].site, raises[0][0].history())
    else:
        ctx.note_undecided("%s: %d outcomes" % (what, len(rets) + len(raises)))
    return None


def world_text(mods, lazy):
    return "%s%s" % (", ".join("%s %s" % kv for kv in sorted(mods.items())) or "all loaded", "" if lazy else ", not lazy")


def check_c14(ctx):
    ctx.rule("C14.outcome", "lookups give the registered marshaller and whether all modules it needs are imported")
    ctx.rule("C14.imports", "modules are imported at most when the parent modules are present, only those needed, only for the marshaller looked up, and not again after an outcome is known")
    ctx.rule("C14.exact", "data is read exactly when the modules are imported and approximately otherwise; writing without them is refused")
    tables, look = make_driver(ctx, C14_SRC)
    for mods in MOD_WORLDS:
        for lazy in (True, False):
            check_world(ctx, look, mods, lazy)
    ctx.need("lookups", 100)


def check_world(ctx, look, mods, lazy):
    text = world_text(mods, lazy)

    def build(it):
        st = State()
        st.p["mods"] = tuple(sorted(mods.items()))
        return st, [C(lazy)], []

    made = one(ctx, "constructing: " + text, ctx.attempt(text, fn(RUN + ".make"), IOWorld, build))
    if made is None:
        return
    it, st, mc = made
    for label in ("M", "N"):
        parents, loaded, can = importable(label, mods)
        got = set(imports(st))
        par, req = USERS[label][3:]
        mine = set(par) | set(req)
        if lazy and got & mine:
            ctx.violation("C14.imports", "constructing", "constructing a lazy collection imports %s (%s)" % (", ".join(sorted(got & mine)), text), "", st.history())
        elif not lazy and (got & mine - set(req) or not parents and got & mine):
            ctx.violation("C14.imports", "constructing", "constructing a collection imports %s (%s)" % (", ".join(sorted(got & mine)), text), "", st.history())
        want = parents and (loaded or can)
        for kind in KINDS:
            for second in KINDS:
                check_twice(ctx, look, st, mc, label, kind, second, want, parents, lazy, text)
    # What doesn't need modules doesn't import any.
    for kind, key in (("type", C("builtins.float")), ("type_string", C("a.Own")), ("type", C("no.Thing")), ("matlab_class", C("nope")), ("type_string", C("nope"))):
        r = ask(ctx, st, mc, kind, key, "an unrelated lookup: " + text)
        if r is None:
            continue
        it, x, v = r
        ctx.count("lookups")
        if imports(x):
            ctx.violation("C14.imports", "others", "looking up %s imports %s (%s)" % (show(key), ", ".join(imports(x)), text), "", x.history())
        if key in (C("no.Thing"), C("nope")) and v.tag == "tup" and not (v.args[0] is NONE and v.args[1] is FALSE):
            ctx.violation("C14.outcome", "unknown", "looking up the unknown %s gives %s" % (show(key), show(v)), "", x.history())
    reading_and_writing(ctx, st, mc, mods, text)


def ask(ctx, st, mc, kind, key, what):
    def build(it):
        x = st.fork()
        x.p["ev"] = ()
        return x, [mc, key], []
    return one(ctx, what, ctx.attempt(what, fn("%s.%s" % (RUN, kind)), IOWorld, build))


def check_twice(ctx, look, st, mc, label, kind, second, want, parents, lazy, text):
    req = USERS[label][4]
    r = ask(ctx, st, mc, kind, KEYS14[label][kind], "a lookup: " + text)
    if r is None:
        return
    it, x, v = r
    outcome(ctx, look, it, x, v, label, want, kind, text)
    got = set(imports(x))
    if got and not parents or got - set(req) or got and not lazy:
        ctx.violation("C14.imports", kind, "looking up the %s of %s imports %s (%s)" % (kind, label, ", ".join(sorted(got)), text), "", x.history())
    r = ask(ctx, x, mc, second, KEYS14[label][second], "a second lookup: " + text)
    if r is None:
        return
    it, y, v = r
    outcome(ctx, look, it, y, v, label, want, second, text + ", second time")
    if imports(y):
        ctx.violation("C14.imports", "again", "looking up the %s of %s a second time imports %s again (%s)"
                      % (second, label, ", ".join(imports(y)), text), "", y.history())


def outcome(ctx, look, it, st, v, label, want, kind, text):
    ctx.count("lookups")
    if v.tag != "tup" or len(v.args) != 2 or not is_c(v.args[1]):
        ctx.note_undecided("the outcome of a lookup: " + text)
        return
    got = look.label(it, st, v.args[0])
    if got is False:
        return
    if got != label or cval(v.args[1]) is not want:
        ctx.violation("C14.outcome", kind, "looking up the %s of %s gives %s, %s instead of %s, %s (%s)"
                      % (kind, label, got, cval(v.args[1]), label, want, text), "", st.history())


def reading_and_writing(ctx, st, mc, mods, text):
    for label in ("M", "N"):
        parents, loaded, can = importable(label, mods)
        want = parents and (loaded or can)
        for attr in ("Python.Type", "MATLAB_class"):
            class W(IOWorld):
                attrs = {"/x": ((attr, C(USERS[label][1 if attr == "Python.Type" else 2][0].encode())),)}

            def build(it):
                x = st.fork()
                x.p["ev"] = ()
                return x, [mc, node("/")], []
            r = one(ctx, "reading: " + text, ctx.attempt("reading", fn(RUN + ".read"), W, build), "C14.exact")
            if r is None:
                continue
            it, x, v = r
            ctx.count("reads")
            exp = T("tup", C("read" if want else "approximate"), C(label))
            if v.tag == "tup" and all(is_c(a) for a in v.args) and v is not exp:
                ctx.violation("C14.exact", "reading", "reading data of %s gives %s instead of %s (%s)" % (label, show(v), show(exp), text), "", x.history())

        def build(it):
            x = st.fork()
            x.p["ev"] = ()
            o = it.alloc(x, Obj("inst", cls=DRV + (".Own" if label == "M" else ".Own2"), data={}))
            return x, [mc, node("/"), o], []
        it, prop, rets, raises = ctx.run(fn(RUN + ".write"), IOWorld, build)
        ctx.count("writes")
        made = [e for x, v in rets for e in x.p.get("ev", ()) if e[0] == "create_group"]
        made += [e for x, v in raises for e in x.p.get("ev", ()) if e[0] == "create_group"]
        if want and not rets and raises:
            ctx.violation("C14.exact", "writing", "writing data of %s raises %s (%s)" % (label, raises[0][1].name, text), raises[0][1].site, raises[0][0].history())
        elif not want and (rets and not raises or made):
            ctx.violation("C14.exact", "writing", "data of %s is written without its modules (%s)" % (label, text), "", (rets + raises)[0][0].history())
        elif not want and raises and raises[0][1].name not in ("NotImplementedError", None):
            ctx.violation("C14.exact", "writing", "writing data of %s without its modules raises %s (%s)" % (label, raises[0][1].name, text), raises[0][1].site, raises[0][0].history())


# -------------------------------------------------------------- C26: plugins

C26_SRC = """
def load():
    return MarshallerCollection(load_plugins=True)

def dont():
    return MarshallerCollection()

def dont2():
    return MarshallerCollection(load_plugins=False)
"""
C26_MAKERS = """
def mixed():
    return (3, P(), "x", None, P)

def nothing():
    return ()

def gen_q():
    yield Q()

def gen_bad():
    yield 3
    raise ValueError("no")

def classes():
    return [P, Q, TypeMarshaller]
"""
GOOD = {"version": "1.0", "result": "make_q"}


def plug(**kw):
    return dict({"version": "1.0", "result": "make_p"}, **kw)


EXCS = ["ImportError", "ModuleNotFoundError", "ValueError", "RuntimeError", "KeyError", "AttributeError", "TypeError", "OSError", "SyntaxError",
        "NotImplementedError", "AssertionError", "RecursionError", "StopIteration"]
# (what, plugins, labels of their marshallers, plugins that are loaded)
PLUGIN_SETS = [
    ("none", [], "", ""),
    ("two good ones", [plug(), GOOD], "PQ", "01"),
    ("one that isn't callable", [plug(load="value"), GOOD], "Q", "01"),
    ("one that isn't callable at the end", [GOOD, plug(load="value")], "Q", "01"),
    ("one giving None", [plug(result="none"), GOOD], "Q", "01"),
    ("one giving a number", [plug(result="number"), GOOD], "Q", "01"),
    ("one giving a str", [plug(result="text"), GOOD], "Q", "01"),
    ("one giving other things and a marshaller", [plug(result="mixed"), GOOD], "PQ", "01"),
    ("one giving nothing", [plug(result="nothing"), GOOD], "Q", "01"),
    ("one giving classes", [plug(result="classes"), GOOD], "Q", "01"),
    ("one giving a generator", [plug(result="gen_q")], "Q", "0"),
    ("one giving a generator that raises", [plug(result="gen_bad"), GOOD], "Q", "01"),
    ("one of another version", [plug(version="2.0"), GOOD], "Q", "1"),
    ("one of another version only", [plug(version="1.1")], "", ""),
    ("one of another version that raises", [GOOD, plug(version="", load="raises")], "Q", "0"),
] + [("one raising %s when loaded" % e, [plug(load="raises", exc=e), GOOD], "Q", "01") for e in EXCS] + [
    ("one raising %s when called" % e, [plug(result="raises", exc=e), GOOD], "Q", "01") for e in EXCS] + [
    ("two bad ones around a good one", [plug(load="raises"), GOOD, plug(result="raises")], "Q", "012"),
    ("a good one before a bad one", [plug(), dict(GOOD, result="raises")], "P", "01"),
]
C26_MAKERS += """
def none():
    return None

def number():
    return 3

def text():
    return "ab"
"""


def check_c26(ctx):
    ctx.rule("C26.isolated", "a broken plugin adds nothing but its valid marshallers and prevents neither the others nor the collection from loading")
    ctx.rule("C26.asked", "plugins are only loaded when asked for, and only those for supported versions")
    ctx.prog.add_driver(DRV, DRIVER_HEAD + "".join(user_class(l) for l in USERS) + PLUGIN_SRC + BAD_SRC + C26_MAKERS)
    tables, look = make_driver(ctx, C26_SRC, True)
    prio = ("builtin", "plugin", "user")
    for what, plugins, labels, loaded in PLUGIN_SETS:
        W = type("W", (ModWorld,), {"plugins": tuple(plugins)})
        r = ctx.attempt(what, fn(RUN + ".load"), W, lambda it: (State(), [], []))
        if r is None:
            continue
        it, prop, rets, raises = r
        ctx.count("plugin_sets")
        name = what.split(" raising")[0]
        if not rets:
            e = raises[0] if raises else None
            ctx.violation("C26.isolated", name, "loading plugins raises %s with %s" % (e[1].name if e else "nothing", what),
                          e[1].site if e else "", e[0].history() if e else ())
            continue
        if len(rets) > 1 or raises:
            ctx.note_undecided("%s: %d outcomes" % (what, len(rets) + len(raises)))
        for st, mc in rets:
            got = sorted({e[1] for e in st.p.get("ev", ()) if e[0] == "load"})
            extra = [i for i in got if str(i) not in loaded]
            if extra:
                ctx.violation("C26.asked", name, "a plugin for another version is loaded with %s" % what, "", st.history())
        if len(rets) == 1 and not raises:
            look.compare("C26.isolated", name, st, mc, [], prio, W, list(labels))
    for f in ("dont", "dont2"):
        it, prop, rets, raises = ctx.run(fn("%s.%s" % (RUN, f)), PluginWorld, lambda it: (State(), [], []))
        for st, mc in rets:
            if any(e[0] in ("load", "plugin") for e in st.p.get("ev", ())):
                ctx.violation("C26.asked", "not asked for", "plugins are loaded without being asked for", "", st.history())
        if len(rets) == 1:
            look.compare("C26.asked", "not asked for", rets[0][0], rets[0][1], [], prio, PluginWorld, [])
    ctx.need("plugin_sets", 20)
