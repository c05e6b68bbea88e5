#!/usr/bin/env python3
"""Makes small changes of the package one by one: which do the tests miss?

mutate.py list                 numbers of the changes
mutate.py tests OUT [N M]      runs the tests on each, appends the survivors
mutate.py checks IN OUT IDS... runs checks on the survivors, in order

Used to find changes the checks don't detect; no check uses it.
"""

import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

SRC = "/repo/src/hdf5storage"
FILES = ["Marshallers.py", "utilities.py", "__init__.py", "pathesc.py"]
FLIP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
                n.body = n.body[1:] or [ast.Pass()]
    return tree


def mutants(tree):
    """(description, function(copy's nodes list, index)) for each change."""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in FLIP:
                    def f(ns, i=i, k=k):
                        ns[i].ops[k] = FLIP[type(ns[i].ops[k])]()
                    yield i, "flip", f
        if isinstance(n, ast.BoolOp):
            def f(ns, i=i):
                ns[i].op = ast.Or() if isinstance(ns[i].op, ast.And) else ast.And()
            yield i, "andor", f
            for k in range(len(n.values)):
                def f(ns, i=i, k=k):
                    del ns[i].values[k]
                yield i, "drop operand %d" % k, f
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                if isinstance(n, ast.While) and v:
                    continue
                def f(ns, i=i, v=v):
                    ns[i].test = ast.Constant(v)
                yield i, "test %s" % v, f
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if n.value is True or n.value is False:
                def f(ns, i=i):
                    ns[i].value = not ns[i].value
                yield i, "bool", f
            elif isinstance(n.value, int):
                def f(ns, i=i):
                    ns[i].value += 1
                yield i, "plus one", f
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                def f(ns, i=i, k=k):
                    del ns[i].keywords[k]
                yield i, "drop keyword %s" % n.keywords[k].arg, f
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
            for part in ("body", "orelse", "finalbody"):
                for k, s in enumerate(getattr(n, part, ()) or ()):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
                        def f(ns, i=i, part=part, k=k):
                            getattr(ns[i], part)[k] = ast.Pass()
                        yield i, "drop %s[%d] %s" % (part, k, ast.unparse(s)[:80].replace("\n", "~")), f
                    if isinstance(s, ast.Return) and s.value is not None and isinstance(n, ast.If):
                        def f(ns, i=i, part=part, k=k):
                            getattr(ns[i], part)[k] = ast.Pass()
                        yield i, "drop return %s" % ast.unparse(s)[:80], f




def all_mutants():
    out = []
    for fn in FILES:
        tree = strip(ast.parse(open(os.path.join(SRC, fn)).read()))
        base = ast.unparse(tree)
        tree = ast.parse(base)
        enclosing = {}

        def mark(n, q):
            enclosing[id(n)] = q
            for c in ast.iter_child_nodes(n):
                mark(c, q + "." + c.name if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else q)

        mark(tree, fn)
        nodes = list(ast.walk(tree))
        for i, what, f in mutants(tree):
            n = nodes[i]
            t2 = copy.deepcopy(tree)
            f(list(ast.walk(t2)))
            ast.fix_missing_locations(t2)
            try:
                text = ast.unparse(t2)
                ast.parse(text)
            except Exception:
                continue
            if text == base:
                continue
            out.append({"file": fn, "where": enclosing[id(n)], "line": getattr(n, "lineno", 0), "what": what,
                        "old": ast.unparse(n)[:120] if isinstance(n, ast.expr) else base.split("\n")[n.lineno - 1].strip()
                        if hasattr(n, "lineno") else "", "text": text})
    random.Random(1).shuffle(out)
    for k, m in enumerate(out):
        m["n"] = k
    return out


def worker_dir():
    d = "/tmp/mut/%s%s" % (sys.argv[1][0], multiprocessing.current_process()._identity[0])
    if not os.path.isdir(d):
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    for fn in FILES:
        shutil.copy(os.path.join(SRC, fn), os.path.join(d, "src/hdf5storage", fn))
    return d


def test(m):
    d = worker_dir()
    with open(os.path.join(d, "src/hdf5storage", m["file"]), "w") as fh:
        fh.write(m["text"])
    env = dict(os.environ, PYTHONPATH=d + "/src:/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "vp_fixed_seed", "-p",
                            "no:cacheprovider", "--timeout=60", "tests"], cwd=d, env=env, timeout=200,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def check(job):
    m, ids = job
    d = worker_dir()
    with open(os.path.join(d, "src/hdf5storage", m["file"]), "w") as fh:
        fh.write(m["text"])
    for i in ids:
        try:
            p = subprocess.run([sys.executable, "/verif/check.py", i, "--src", d, "--no-evidence"], timeout=600,
                               capture_output=True, text=True, env=dict(os.environ, SPREAD="1"))
        except subprocess.TimeoutExpired:
            return m, i + " timeout"
        if p.returncode:
            return m, "%s %d" % (i, p.returncode)
    return m, None


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        print(len(ms))
        return
    if sys.argv[1] == "tests":
        lo, hi = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, len(ms))
        with multiprocessing.Pool(int(os.environ.get("JOBS", "7"))) as pool, open(sys.argv[2], "a") as fh:
            for m, r in zip(ms[lo:hi], pool.imap(test, ms[lo:hi])):
                m["survives"] = r
                if r:
                    fh.write(json.dumps({k: v for k, v in m.items()}) + "\n")
                    fh.flush()
        print("done")
        return
    todo = [json.loads(x) for x in open(sys.argv[2])]
    with multiprocessing.Pool(8) as pool, open(sys.argv[3], "a") as fh:
        for m, r in pool.imap_unordered(check, [(m, sys.argv[4:]) for m in todo]):
            m["by"] = r
            fh.write(json.dumps(m) + "\n")
            fh.flush()


main()
