#!/usr/bin/env python3
"""Runs the check of one property:  ./run.py C02 [--tier quick|thorough] [--seed N] [--case K]

Builds the monitors from /repo's working tree, runs them, rewrites
evidence/<id>.json, and exits 0 (held), 1 (a VIOLATION line was printed) or
something else (the check itself failed, which says nothing about the property).
"""
import argparse, json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import common, registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--case", type=int, default=None, help="replay only this case")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = a.property
    spec = registry.CHECKS[prop]
    ctx = common.Ctx(prop, a.tier, a.seed, a.case)
    t0 = time.time()
    results = []
    for job in spec["jobs"]:
        try:
            r = job(ctx)
        except common.Inconclusive as e:
            print(f"INCONCLUSIVE property={prop}: {e}", file=sys.stderr)
            return 2
        results.append(r)
    merged = common.merge(results)
    known = common.known_findings(prop)
    fresh, listed = [], []
    for v in merged["violations"]:
        (listed if v["key"] in known else fresh).append(v)
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": merged["evaluations"],
            "distinct_nontrivial": merged["distinct_nontrivial"],
            "rule": merged["rule"],
            "samples": merged["samples"][:12] or ["(none)"],
            "observed": merged["counters"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if merged["notes"]:
        ev["coverage"]["notes"] = merged["notes"][:10]
    common.write_json(os.path.join(HERE, "evidence", prop + ".json"), ev)
    for v in listed:
        print(f"KNOWN-FINDING: property={prop} {v['key']}: {v['what'][:300]}")
    if fresh:
        path = common.write_replay(ctx, fresh)
        for v in fresh[:5]:
            print(f"  {v['key'][:150]}: {v['what'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if merged["evaluations"] == 0:
        print("INCONCLUSIVE: nothing was observed", file=sys.stderr)
        return 2
    print(f"held property={prop} tier={a.tier} seed={a.seed} evaluations={merged['evaluations']} "
          f"distinct={merged['distinct_nontrivial']} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
