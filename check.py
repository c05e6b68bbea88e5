#!/usr/bin/env python3
"""Runs the static analysis of one property on the current /repo.

usage: check.py ID [--tier quick|thorough] [--src DIR] [--no-evidence]
"""

import argparse
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa.core import Context, load  # noqa: E402
from sa.loader import AnalysisBroken  # noqa: E402
import props  # noqa: E402


def known_findings():
    """{(property, key): text} and the fixed entries of FINDINGS."""
    out = {}
    path = os.path.join(HERE, "FINDINGS")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                pid, key = rest.split(" ", 1)
                key, _, text = key.partition(" :: ")
                out[(pid, key.strip())] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--src", default=None, help="repository root to analyse")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    ctx = None
    broken = None
    try:
        prog = load(a.src)
        ctx = Context(prog, a.id, a.tier)
        props.CHECKS[a.id](ctx)
        if a.tier == "thorough":
            from props import controls
            controls.run(ctx, a.src)
    except AnalysisBroken as e:
        broken = str(e)
        if ctx is None or not ctx.findings:
            print("ANALYSIS-BROKEN property=%s %s" % (a.id, e))
            return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % a.id)
        return 2
    known = known_findings()
    new, listed = [], []
    for f in ctx.findings.values():
        (listed if (a.id, f.key) in known else new).append(f)
    ev = {
        "property": a.id,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "wall_s": round(time.time() - t0, 3),
        "coverage": {
            "explanation": "Static analysis of the source under /repo/src: abstract "
            "interpretation of the functions listed, no code of the package is run. "
            "Violations are reported for any abstract path breaking a rule.",
            "files": [os.path.relpath(p, prog.root) for p in prog.files],
            "functions_analysed": sorted(x for x in ctx.functions if "<locals>" not in x),
            "functions_analysed_count": len(ctx.functions),
            "abstract_steps": ctx.steps,
            "exits_of_entry_points": ctx.paths,
            "rules": ctx.rules,
            "counts": ctx.counts,
            "samples": ctx.samples,
            "undecided": ctx.undecided,
            "violations": [f.key for f in new],
            "known_findings": [f.key for f in listed],
        },
    }
    if not a.no_evidence:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, a.id + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write("\n")
    for f in listed:
        print("KNOWN-FINDING: property=%s %s" % (a.id, f.key))
    if new:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, a.id + ".violations.txt")
        with open(rp, "w", encoding="utf-8") as fh:
            for f in new:
                fh.write("%s\n  %s\n  rule: %s\n" % (f.key, f.message, ctx.rules.get(f.rule, f.rule)))
                for h in f.trace[-25:]:
                    fh.write("    %s\n" % h)
                fh.write("\n")
        for f in new:
            print("%s %s" % (f.rule, f.message))
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (a.id, broken))
        return 2
    if a.v:
        print(json.dumps(ev["coverage"], indent=1))
    print("OK property=%s %s %.1fs" % (a.id, ctx.counts, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
