"""Running rules and reporting what they found."""

import json
import os
import time

from .interp import Budget, Interp, Obj, Property, State
from .loader import AnalysisBroken, Program
from .terms import T, ext, show, sym

REPO = os.environ.get("VERIF_REPO", "/repo")


class Finding:
    def __init__(self, rule, construct, message, loc, trace):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.loc = loc
        self.trace = trace

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)


class Context:
    """What one check of one property works with."""

    def __init__(self, prog, prop_id, tier="quick"):
        self.prog = prog
        self.id = prop_id
        self.tier = tier
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.functions = set()
        self.steps = 0
        self.paths = 0
        self.rules = {}
        self.undecided = []

    # -- reporting -------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def violation(self, rule, construct, message, loc="", trace=()):
        f = Finding(rule, construct, message, loc, list(trace))
        old = self.findings.get(f.key)
        if old is None:
            self.findings[f.key] = f

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12 and text not in self.samples:
            self.samples.append(text)

    def note_undecided(self, text):
        if text not in self.undecided:
            self.undecided.append(text)

    def need(self, name, least):
        if self.counts.get(name, 0) < least:
            raise AnalysisBroken(
                "rule matched %d instances of %s, at least %d expected"
                % (self.counts.get(name, 0), name, least)
            )

    # -- analysing -------------------------------------------------------
    def attempt(self, what, fn, make, build):
        """Like run, None when it's too big; the rest is still analysed."""
        try:
            return self.run(fn, make, build)
        except Budget:
            self.note_undecided("too big: " + what)
            return None
        except (AnalysisBroken, MemoryError):
            raise
        except Exception as e:
            # Code of a kind the models don't know; the rest is still analysed.
            self.note_undecided("not understood (%s): %s" % (type(e).__name__, what))
            if os.environ.get("SA_DEBUG"):
                raise
            return None

    def run(self, fn, make, build, caps=(24, 8, 3)):
        """Analyses fn.  make() gives a fresh Property, build(it, st) the
        arguments (args, kw).  Retries with coarser joins when too big."""
        last = None
        for cap in caps:
            prop = make()
            prop.cap = min(cap, prop.cap)
            it = Interp(self.prog, prop)
            it.frames = []
            saved = (dict(self.findings), dict(self.counts), list(self.samples))
            try:
                st = build(it)
                if isinstance(st, tuple):
                    st, args, kw = st
                else:
                    args, kw = [], []
                rets, raises = it.run(fn, args, st, kw)
            except Budget as e:
                last = e
                self.findings, self.counts, self.samples = saved
                continue
            self.functions |= it.calls_seen
            self.steps += it.steps
            self.paths += len(rets) + len(raises)
            return it, prop, rets, raises
        raise last


def load(root=None, overrides=None):
    return Program(os.path.join(root or REPO, "src"), "hdf5storage", overrides)


def where(it, node):
    return it.loc(node)


def fn(q):
    return T("fn", q, None)


def typed(name, cls):
    """A value of exactly the given external type."""
    return T("typed", sym(name), ext(cls))
