"""Positive controls: does a check report source changes breaking its property?

Each control replaces a piece of text in the normalised source of one module
(comments and formatting removed), in memory only, and runs the check on the
result.  A control whose text isn't in the source any more is skipped.  What
wasn't reported is listed in the evidence; it decides nothing.

Run as a program (python3 -m props.controls [ID...]) it prints the results.
"""

import ast
import os
import sys

from sa.core import REPO, Context
from sa.loader import AnalysisBroken, Program

INIT, MARSH, UTIL, PATH, PLUG = (
    "__init__.py", "Marshallers.py", "utilities.py", "pathesc.py", "plugins.py")

CONTROLS = {}


def control(pid, file, *pairs):
    CONTROLS.setdefault(pid, []).append((file, pairs))


REFACTORINGS = []


def refactoring(file, *pairs):
    """Changes no behaviour: every check has to stay quiet."""
    REFACTORINGS.append((file, pairs))


_norm = {}


def normalised(path):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    r = _norm.get((path, text))
    if r is None:
        tree = ast.parse(text)
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
                b = n.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
                    n.body = n.body[1:] or [ast.Pass()]
        r = _norm[(path, text)] = ast.unparse(tree)
    return r


def one(pid, src, file, pairs, check):
    """'detected', 'missed', 'skipped' or 'broken'."""
    path = os.path.join(src, "hdf5storage", file)
    text = normalised(path)
    for old, new in pairs:
        if text.count(old) < 1:
            return "skipped", None
        text = text.replace(old, new, 1)
    try:
        ast.parse(text)
    except SyntaxError:
        return "skipped", None
    ctx = None
    try:
        ctx = Context(Program(src, "hdf5storage", {path: text}), pid)
        check(ctx)
    except AnalysisBroken as e:
        if ctx is None or not ctx.findings:
            return "broken", str(e)
    return ("detected" if ctx.findings else "missed"), sorted(ctx.findings)


def run(ctx, root=None):
    import props
    from props import control_list  # noqa: F401
    src = os.path.join(root or REPO, "src")
    n = {}
    for file, pairs in CONTROLS.get(ctx.id, ()):
        r, what = one(ctx.id, src, file, pairs, props.CHECKS[ctx.id])
        n[r] = n.get(r, 0) + 1
        if r in ("missed", "broken"):
            ctx.note_undecided("control %s: %r" % (r, pairs[0][0][:80]))
    for k, v in n.items():
        ctx.count("controls_" + k, v)


def _job(j):
    import props
    from props import control_list, controls  # noqa: F401
    sys.setrecursionlimit(20000)
    pid, k, which = j
    file, pairs = (controls.CONTROLS[pid] if which == "c" else controls.REFACTORINGS)[k]
    try:
        r, what = one(pid, os.path.join(REPO, "src"), file, pairs, props.CHECKS[pid])
    except Exception as e:
        r, what = "ERROR", repr(e)
    return r, what


def main():
    import multiprocessing

    import props
    from props import control_list, controls  # noqa: F401
    ref = "-r" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(props.CHECKS)
    if ref:
        jobs = [(p, k, "r") for k in range(len(controls.REFACTORINGS)) for p in ids]
    else:
        jobs = [(p, k, "c") for p in ids for k in range(len(controls.CONTROLS.get(p, ())))]
    with multiprocessing.Pool(8) as pool:
        for (pid, k, w), (r, what) in zip(jobs, pool.imap(_job, jobs)):
            pairs = (controls.REFACTORINGS if ref else controls.CONTROLS[pid])[k][1]
            if ref and r == "missed" or not ref and r == "detected" and "-v" not in sys.argv:
                continue
            print(pid, r, "|", pairs[0][0][:70].replace("\n", "~"), "->", pairs[0][1][:90].replace("\n", "~"), "|", (what or "")[:3], flush=True)
    print(len(jobs), "runs")


if __name__ == "__main__":
    main()
