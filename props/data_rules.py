"""Rules about what is written for data and read back."""

from .coll_rules import ModWorld
from .numworld import *

LAB = "__rules_data"
SRC = """
import hdf5storage
from hdf5storage import MarshallerCollection, Options
from hdf5storage.utilities import LowLevelFile, set_attributes_all

def collection():
    return MarshallerCollection()

def options(mc, kw):
    return Options(marshaller_collection=mc, **kw)

def lowlevel(f, o):
    return LowLevelFile(f, o)

def write(ll, grp, name, data):
    return ll.write_data(grp, name, data, None)

def read(ll, grp, name):
    return ll.read_data(grp, name)

def attributes(target, wanted, discard):
    return set_attributes_all(target, wanted, discard)
"""


class DataWorld(ModWorld, NumWorld):
    cap = 64
    max_steps = 150000
    recursion = 12
    max_stack = 120

    def ev(self, st, *e):
        st.p["ev"] = st.p.get("ev", ()) + (e,)

    def may_raise(self, it, st, f, n):
        return False

    def call(self, it, st, f, args, kw, n, fr):
        r = ModWorld.call(self, it, st, f, args, kw, n, fr)
        return NumWorld.call(self, it, st, f, args, kw, n, fr) if r is None else r

    def contains(self, it, st, x, coll, n):
        r = ModWorld.contains(self, it, st, x, coll, n)
        return NumWorld.contains(self, it, st, x, coll, n) if r is None else r

    def getattr(self, it, st, base, name, n):
        r = ModWorld.getattr(self, it, st, base, name, n)
        return NumWorld.getattr(self, it, st, base, name, n) if r is None else r

    def decide(self, it, st, atom):
        r = ModWorld.decide(self, it, st, atom)
        return NumWorld.decide(self, it, st, atom) if r is None else r


class Lab:
    """Runs the writers and readers of the package on values of the model."""

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.prog.add_driver(LAB, SRC)
        r = self.one("the marshaller collection", "collection", State(), [])
        if r is None:
            raise AnalysisBroken("the marshaller collection can't be followed")
        self.st, self.mc = r[1:]
        self.cache = {}

    def run(self, what, f, st, args, world=DataWorld):
        def build(it):
            a = args(it, st) if callable(args) else args
            return st, a, []
        return self.ctx.attempt(what, fn("%s.%s" % (LAB, f)), world, build)

    def one(self, what, f, st, args, world=DataWorld):
        """(interpreter, state, value) of a run with one outcome."""
        r = self.run(what, f, st, args, world)
        if r is None:
            return None
        it, prop, rets, raises = r
        if len(rets) == 1 and not raises:
            rets[0][0].trace = None
            return it, rets[0][0], rets[0][1]
        return None

    def options(self, **kw):
        key = tuple(sorted(kw.items()))
        if key not in self.cache:
            def args(it, st):
                d = {C(k): (v if isinstance(v, Term) else C(v), True) for k, v in kw.items()}
                return [self.mc, it.alloc(st, Obj("dict", data=d))]
            r = self.one("the options", "options", self.st.fork(), args)
            if r is None:
                raise AnalysisBroken("the options %r can't be followed" % (kw,))
            it, st, o = r
            r = self.one("the file", "lowlevel", st, [node("/"), o])
            if r is None:
                raise AnalysisBroken("LowLevelFile can't be made")
            self.cache[key] = r[1], o, r[2]
        st, o, ll = self.cache[key]
        st = st.fork()
        st.p["ev"] = ()
        return st, o, ll
