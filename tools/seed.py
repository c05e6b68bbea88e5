#!/usr/bin/env python3
"""Confirms planted bugs and keeps them under /verif/seeded.

usage: seed.py SPEC.py [ID...]     confirm and keep
       seed.py --check [ID...]     which checks report the kept ones

SPEC.py defines SEEDS, a list of (id, property, [(file, old, new)...], demo,
needs, what it breaks); the demo is a Python program.
"""

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
BASE = "663fa6f"


def run(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=800)


def copy_repo(d):
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return r


def original_lines(patch):
    """Every removed line must come from the original repository."""
    own = set()
    cur, line = None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        elif l.startswith("@@"):
            line = int(l.split("-")[1].split(",")[0].split(" ")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = run(["git", "blame", "-s", "-L%d,%d" % (line, line), cur], "/repo").stdout
            if not b.lstrip("^").startswith(BASE[:6]):
                own.add("%s:%d" % (cur, line))
            line += 1
        elif l.startswith(" "):
            line += 1
    return own


def one(spec):
    sid, pid, edits, demo, needs, breaks = spec
    out = []
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        r = copy_repo(d)
        for f, old, new in edits:
            p = os.path.join(r, "src/hdf5storage", f)
            s = open(p).read()
            rx = re.sub(r"(\\\n)+", lambda m: r"(?:[ \t]*\n)+", re.escape(old))
            n = len(re.findall(rx, s))
            if n != 1:
                return sid, False, ["%s: text occurs %d times: %r" % (f, n, old[:60])]
            open(p, "w").write(re.sub(rx, lambda m: new, s))
        patch = run(["git", "diff"], r).stdout
        own = original_lines(patch)
        if own:
            out.append("changes lines of my own: %s" % sorted(own))
        if not any(l.startswith("-") and not l.startswith("---") for l in patch.splitlines()):
            out.append("only adds lines")
        k = os.path.join(d, "demo")
        os.makedirs(k)
        open(os.path.join(k, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(k, "demo.sh"), 0o755)
        open(os.path.join(k, "demo.py"), "w").write(demo)
        a = run(["bash", os.path.join(k, "demo.sh")], "/repo")
        b = run(["bash", os.path.join(k, "demo.sh")], r)
        if a.returncode != 0:
            out.append("demo fails on the unchanged tree:\n" + a.stdout + a.stderr[-1500:])
        if b.returncode == 0:
            out.append("demo passes with the patch")
        ok = not out
        if ok:
            j = os.path.join(d, "j.xml")
            t = run([PY, "-m", "pytest", "-q", "-p", "vp_fixed_seed", "-p", "no:cacheprovider",
                     "--timeout=60", "-o", "junit_family=xunit2", "--junitxml=" + j],
                    r, PYTHONPATH="/opt/vp/plugins:%s/src" % r, PYTHONHASHSEED="0", PYTHONUTF8="1")
            o = os.path.join(d, "o.json")
            run(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + j], r)
            got = set(json.load(open(o))["passed"])
            bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in got]
            if bad:
                ok = False
                out.append("tests fail: %d %s" % (len(bad), bad[:3]))
        if ok:
            t = os.path.join(SEEDED, sid)
            os.makedirs(t, exist_ok=True)
            open(os.path.join(t, "patch.diff"), "w").write(patch)
            shutil.copy(os.path.join(k, "demo.sh"), t)
            shutil.copy(os.path.join(k, "demo.py"), t)
            json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks},
                      open(os.path.join(t, "meta.json"), "w"), indent=1)
            out.append("kept; demo says: " + (b.stderr.strip().splitlines() or [""])[-1][:160])
            out.append("checks: %s" % check(r, [pid]))
        return sid, ok, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(r, ids):
    res = {}
    for i in ids:
        c = run(["python3", os.path.join(HERE, "check.py"), i, "--src", r, "--no-evidence", "--tier", "quick"], HERE)
        first = [l for l in c.stdout.splitlines() if not l.startswith("VIOLATION")][:1]
        res[i] = "%s %s" % ({0: "MISSED", 1: "caught", 2: "BROKEN"}.get(c.returncode), (first or [""])[0][:150] if c.returncode else "")
    return res


def kept(sid):
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        r = copy_repo(d)
        m = json.load(open(os.path.join(SEEDED, sid, "meta.json")))
        a = run(["git", "apply", os.path.join(SEEDED, sid, "patch.diff")], r)
        if a.returncode:
            return sid, "patch doesn't apply: " + a.stderr
        return sid, check(r, [m["property"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    with cf.ThreadPoolExecutor(6) as ex:
        if args[:1] == ["--check"]:
            ids = args[1:] or sorted(os.listdir(SEEDED))
            for sid, res in ex.map(kept, ids):
                print(sid, res)
            return
        ns = {}
        exec(open(args[0]).read(), ns)
        specs = [s for s in ns["SEEDS"] if not args[1:] or s[0] in args[1:]]
        for f in cf.as_completed([ex.submit(one, s) for s in specs]):
            sid, ok, out = f.result()
            print("%s %s\n  %s" % ("OK  " if ok else "BAD ", sid, "\n  ".join(out)), flush=True)


main()
