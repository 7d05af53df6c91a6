#!/usr/bin/env python3
"""check.py <property> [--thorough] | --setup"""
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from rules import build, lib

KNOWN = os.path.join(ROOT, "known_findings.txt")


def known(pid):
    """{key: text} of the recorded, unrepaired findings of a property"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                k, _, txt = rest.partition(" :: ")
                r[k[len("key="):]] = txt
    return r


def main():
    if "--setup" in sys.argv:
        for c in ("default", "noray"):
            print(build.facts(c))
        return 0
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    ck = lib.Check(pid, thorough)
    mod = importlib.import_module("rules." + pid.lower())
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = os.path.join(evdir, pid + ".json")
    crashed = False
    try:
        mod.check(ck)
    except Exception as e:  # the source is not in a form the rule can follow: not an alarm, but no answer either
        if os.environ.get("VERIF_DEBUG"):
            raise
        crashed = True
        ck.unsure("the whole check", "%s: %s" % (type(e).__name__, e))
    floor = getattr(mod, "FLOOR", 1)
    # fail closed: every obligation confirmed by hand must still be there
    if len(ck.obl) < floor and not crashed:
        ck.bad("floor", "?", "only %d obligations found, %d were confirmed" % (len(ck.obl), floor))
    kn = known(pid)
    new = []
    hit = []
    for k, w, m in ck.viol:
        if k in kn:
            if k not in hit:
                hit.append(k)
        else:
            new.append((k, w, m))
    for k in hit:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[k], k))
    n_ok = sum(1 for _, s in ck.obl if s == "ok")
    data = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": getattr(mod, "RULE", mod.__doc__ or "").strip(),
            "obligations": len(ck.obl),
            "discharged": n_ok,
            "undecided": [list(x) for x in ck.undecided][:50],
            "functions_analysed": len(ck.funcs),
            "functions": sorted(ck.funcs)[:200],
            "samples": ck.samples,
            "configurations": sorted(ck.progs),
            "known_findings": hit,
        },
        "assumptions": ck.assumptions + getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    data["coverage"].update(ck.stats)
    with open(ev, "w") as f:
        json.dump(data, f, indent=1)
    for l, w in ck.undecided:
        print("UNDECIDED: %s: %s" % (l, w))
    print("%s: %d obligations, %d discharged, %d undecided, %d functions analysed (%.1f s)" % (pid, len(ck.obl), n_ok, len(ck.undecided), len(ck.funcs), time.time() - t0))
    if new:
        rp = os.path.join(evdir, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, w, m in new:
                f.write("[%s] at %s\n  %s\n\n" % (k, w, m))
        for k, w, m in new[:20]:
            print("  violation [%s] at %s\n    %s" % (k, w, m))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
