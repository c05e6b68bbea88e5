"""Where what is read from files goes (C21)."""

import ast

from sa.taint import Flow, NONE
from .common import *  # noqa: F401,F403

MODULES = {
    "pickle", "_pickle", "cPickle", "dill", "cloudpickle", "marshal", "shelve", "joblib", "jsonpickle",
    "runpy", "ctypes", "subprocess", "pty", "code", "codeop", "yaml", "imp", "cffi", "multiprocessing", "numba",
}
FIRST = {
    "builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__",
    "importlib.import_module", "importlib.__import__", "importlib.reload", "pkgutil.resolve_name",
    "pkgutil.get_loader", "pydoc.locate", "pydoc.resolve", "pydoc.safeimport", "pydoc.importfile", "pkgutil.find_loader",
    "importlib.find_loader", "imp.find_module", "logging.config.dictConfig",
    "pydoc.render_doc", "doctest.testsource", "operator.attrgetter", "operator.methodcaller",
    "os.system", "os.popen", "os.startfile", "types.FunctionType", "types.CodeType", "types.new_class",
    "types.ModuleType", "dataclasses.make_dataclass", "collections.namedtuple", "typing.NamedTuple",
    "typing.get_type_hints", "typing.ForwardRef", "enum.Enum", "timeit.timeit", "timeit.repeat", "code.interact",
    "ast.unparse_and_run", "numexpr.evaluate", "sympy.sympify", "pandas.eval", "pandas.read_pickle",
    "importlib.util.find_spec", "importlib.util.spec_from_file_location", "unittest.mock.patch",
}
SECOND = {
    "builtins.getattr", "builtins.setattr", "builtins.delattr", "builtins.hasattr", "inspect.getattr_static",
    "object.__getattribute__", "object.__setattr__", "builtins.object.__getattribute__",
    "builtins.object.__setattr__", "builtins.type.__getattribute__",
}


class Rules:
    """What comes from files, and what it must not be given to."""

    def __init__(self):
        self.sources = set()

    def source(self, flow, f, i, p):
        text = None
        if p.annotation is not None:
            names = ast.unparse(p.annotation)
            if "h5py" in names or "Dataset" in names or "AttributeManager" in names:
                text = "the file's contents given to %s as %s" % (f.qual, p.arg)
        if f.cls is not None and f.name in ("read", "read_approximate") and i in (2, 3) and any(
            q.endswith(".TypeMarshaller") for q in flow.up.get(f.cls.qual, ())
        ):
            text = "the file's contents given to %s as %s" % (f.qual, p.arg)
        if text:
            self.sources.add((f.qual, p.arg))
        return text

    def made(self, dotted):
        if dotted.startswith("h5py.") and dotted.split(".")[-1] in (
            "File", "Group", "Dataset", "AttributeManager", "get", "open", "read_direct"
        ):
            self.sources.add((dotted, ""))
            return "the file opened with %s" % dotted
        return None

    def sink(self, dotted, args, kw, node):
        top, last = dotted.split(".")[0], dotted.split(".")[-1]
        if dotted in FIRST:
            return (0, "name", "source", "object", "typename", "obj", "cls_name", "field_names", 1) \
                if dotted in ("collections.namedtuple", "dataclasses.make_dataclass") \
                else (0, "name", "source", "object", "module", "typename", "globals", "package", "statement", "stmt")
        if dotted in SECOND:
            return (1,) if len(args) != 1 or dotted == "builtins.hasattr" else ("*",)
        if dotted == "builtins.type" and len(args) == 3:
            return (0, 1, 2)
        if top in MODULES and last not in ("dumps", "dump", "HIGHEST_PROTOCOL", "DEFAULT_PROTOCOL"):
            return ("*",)
        if top == "os" and (last.startswith("exec") or last.startswith("spawn") or last.startswith("posix_spawn")):
            return ("*",)
        if top == "numpy" and last == "load" and any(
            k.arg is None or (k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and not k.value.value))
            for k in getattr(node, "keywords", ())
        ):
            return ("*",)
        if dotted in ("builtins.str.format", "builtins.str.format_map"):
            return (0,)
        return None

    def method(self, name, args, kw):
        """Methods of unknown values that are as good as calls above."""
        if name in ("__getattribute__", "__getattr__", "__setattr__", "__delattr__") and args:
            return "%s() by name" % name, args[-1] if name != "__setattr__" else args[-2 if len(args) > 1 else 0]
        if name in ("format", "format_map"):
            return "formatting with fields looked up", "receiver"
        if name in ("import_module", "system", "popen", "locate", "resolve_name", "find_class", "load_module", "exec_module",
                    "import_name", "get_field", "vformat"):
            return "%s()" % name, args[0] if args else NONE
        return None

    def method_made(self, name, recv):
        return None


def check_c21(ctx):
    ctx.rule("execute", "nothing read from a file reaches a call that executes or compiles code, unpickles, imports, "
             "or looks up attributes by name, unless a comparison with values of the package's own let it through")
    rules = Rules()
    flow = Flow(ctx.prog, rules)
    done = flow.solve()
    if not done:
        ctx.note_undecided("the flows didn't settle")
    ctx.functions |= set(flow.funcs)
    ctx.count("functions", len(flow.funcs))
    ctx.count("call sites", len(flow.calls))
    ctx.count("sources", len(rules.sources))
    ctx.count("calls that could execute or look up names", len(flow.watched))
    for q, what, line in sorted(flow.watched):
        ctx.sample("%s in %s" % (what, q))
    for (q, what, line), src in sorted(flow.found.items()):
        f = flow.funcs.get(q)
        path = f.module.path if f is not None else ctx.prog.modules[q].path
        ctx.violation("execute", "%s|%s" % (q, what), "%s at %s:%d is given what comes from %s"
                      % (what, path, line, "; ".join(sorted(src)[:3])), "%s:%d" % (path, line))
    ctx.need("functions", 50)
    ctx.need("sources", 5)
