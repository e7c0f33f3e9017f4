#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01"""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "analysis"))
sys.setrecursionlimit(10000)


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) key=\[(.*?)\] (.*)$", l.rstrip("\n"))
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    import build
    from common import Ctx, CheckError
    from facts import Program
    try:
        d, h = build.facts()
        prog = Program(d)
        ctx = Ctx(prop, prog, tier)
        ctx.facts_hash = h
        import registry
        spec = registry.CHECKS[prop]
        try:
            spec["run"](ctx)
        except CheckError as e:
            # what was found before stands
            if not any((prop, k) not in known() for k in ctx.viol):
                raise
            ctx.notes.append("incomplete: %s" % e)
    except (CheckError, build.BuildError) as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal" % prop)
        return 3
    kn = known()
    bad, listed = [], []
    for key, items in sorted(ctx.viol.items()):
        (listed if (prop, key) in kn else bad).append((key, items))
    nob = sum(o[0] for o in ctx.oblig.values())
    nok = sum(o[1] for o in ctx.oblig.values())
    from models import M
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": spec["rule"],
            "technique": spec["technique"],
            "facts": h,
            "rules_instances": nob,
            "rules_instances_held": nok,
            "constructs": sorted(ctx.oblig)[:400],
            "functions_analysed": len(ctx.fns),
            "function_list": sorted(ctx.fns)[:200],
            "engine": ctx.stats,
            "counts": ctx.counts,
            "unmodelled_calls_treated_as_arbitrary": dict(sorted(ctx.havoc.items())[:100]),
            "notes": ctx.notes,
        },
        "assumptions": sorted(M.assumptions | set(spec.get("assumptions", ()))),
        "violations": [{"construct": k, "detail": [{"what": m, "where": s} for m, s in it]} for k, it in bad],
        "known": [{"construct": k, "detail": [{"what": m, "where": s} for m, s in it]} for k, it in listed],
        "wall_s": round(time.time() - t0, 3),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    ep = os.path.join(edir, prop + ".json")
    with open(ep + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    os.replace(ep + ".tmp", ep)
    for k, it in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, k)]))
    if nob == 0:
        print("ERROR property=%s nothing was checked" % prop)
        return 2
    if bad:
        rp = os.path.join(edir, prop + ".violations.txt")
        with open(rp, "w") as fh:
            for k, it in bad:
                fh.write("%s\n" % k)
                for m, s in it:
                    fh.write("    %s\n    at %s\n" % (m, s))
        for k, it in bad:
            for m, s in it[:4]:
                print("%s: %s [%s]" % (k, m, s))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s %d rule instances over %d functions in %.1fs" % (prop, nob, len(ctx.fns), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
