#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo /repo] : static check of one property."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import fgs.framework
from fgs.framework import Ctx, clip  # noqa: E402
from fgs.program import Program, AnalysisBroken  # noqa: E402

ASSUMPTIONS = [
    "arithmetic is over the reals (rounding is not modelled); numpy/scipy/shapely functions behave as documented",
    "labels inside one machine or circuit are distinct",
    "the package is entered through its public classes and functions; no attribute is replaced from outside by monkey-patching",
]


def known():
    out = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known:"):
                parts = line[6:].strip().split(None, 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return out


def analyse(pid, prog, tier):
    mod = importlib.import_module("fgs.rules." + pid.lower())
    ctx = Ctx(prog, tier)
    mod.check(ctx)
    minimum = getattr(mod, "MIN_OBLIGATIONS", 1)
    if len(ctx.obs) < minimum:
        raise AnalysisBroken("only %d obligations, %d were confirmed by hand" % (len(ctx.obs), minimum))
    return mod, ctx


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="parse the tree and load every registered rule")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="development: internal errors are not reported as undecided")
    a = ap.parse_args()
    pid = a.property
    fgs.framework.STRICT = a.strict
    if a.selftest:
        prog = Program(a.repo)
        ids = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
        for i in ids:
            importlib.import_module("fgs.rules." + i.lower())
        print("%d modules parsed, %d rules loaded" % (len(prog.modules), len(ids)))
        return 0
    t0 = time.time()
    try:
        prog = Program(a.repo)
        mod, ctx = analyse(pid, prog, a.tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    kn = known()
    bad, listed = [], []
    for o in ctx.obs:
        if o.status == "violated":
            (listed if (pid, o.key) in kn else bad).append(o)
    und = [o for o in ctx.obs if o.status == "undecided"]
    for o in listed:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, o.key, o.where, kn[(pid, o.key)]))
    cov = {
        "explanation": "static analysis of /repo/freegs (never executed): %s" % (mod.__doc__ or "").strip(),
        "rules": sorted({o.rule for o in ctx.obs}),
        "obligations": len(ctx.obs),
        "discharged": sum(o.status == "held" for o in ctx.obs),
        "violated": len(bad) + len(listed),
        "undecided": [{"key": o.key, "where": o.where, "why": o.detail} for o in und],
        "functions_analysed": sorted(ctx.functions),
        "comparisons": ctx.sites,
        "source_digests": {m.relpath: m.digest[:16] for m in prog.modules.values()},
        "obligation_list": [{"key": o.key, "where": o.where, "status": o.status} for o in ctx.obs],
    }
    if a.tier == "thorough":
        from fgs.mutate import sensitivity
        cov["checker_sensitivity"] = sensitivity(pid, a.repo, ctx)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d held, %d undecided, %d functions analysed, %.1fs" % (pid, len(ctx.obs), cov["discharged"], len(und), len(ctx.functions), time.time() - t0))
    for o in und:
        print("  undecided %s at %s: %s" % (o.key, o.where, o.detail))
        if a.v:
            print("     spec:", o.spec, "\n     code:", o.code)
    if bad:
        path = os.path.join(HERE, "evidence", pid + ".violation.json")
        with open(path, "w") as f:
            json.dump([o.as_dict() for o in bad], f, indent=1)
        for o in bad:
            print("  %s: [%s] %s: %s" % (o.where, o.rule, o.key, o.detail))
            if o.spec or o.code:
                print("     required: %s" % clip(o.spec, 1500 if a.v else 400))
                print("     computed: %s" % clip(o.code, 1500 if a.v else 400))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
