#!/usr/bin/env python3
"""usage: check.py <property id>   (tier from VERIF_TIER or --thorough)"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    t0 = time.time()
    pid = sys.argv[1]
    if pid == "--selfcheck":
        from lib.model import Model
        import rules

        m = Model()
        print(f"{len(m.classes)} classes, {m.loc} lines parsed; rules: {' '.join(sorted(rules.PROPS))}")
        return 0
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from lib.core import Ctx, AnalysisBroken
    import rules

    try:
        ctx = Ctx(pid, tier)
        rules.PROPS[pid](ctx)
        for what, n in ctx.floors.items():
            if ctx.counts.get(what, 0) < n and not ctx.findings:
                raise AnalysisBroken(f"only {ctx.counts.get(what, 0)} instances of '{what}', at least {n} expected: the rule no longer sees the code it was written for")
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e.get("kind") == "known" and e["property"] == pid:
                known[e["key"]] = e
    new = []
    for f in ctx.findings:
        if f.key in known:
            print(f"KNOWN-FINDING: property={pid} {known[f.key]['what']}")
        else:
            new.append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    from meta import META

    lv = META[pid]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": lv["level"],
        "coverage": {
            "explanation": lv["explanation"],
            "functions_analysed": len(ctx.analysed),
            "functions": sorted(ctx.analysed)[:80],
            "paths": ctx.npaths,
            "obligations_checked": ctx.obligations,
            "obligations_discharged": ctx.discharged,
            "instances": {k: v for k, v in sorted(ctx.counts.items())},
            "minimum_instances": ctx.floors,
            "not_analysed_path_limit": ctx.truncated,
            "lines_parsed": ctx.m.loc,
            "source_sha256": ctx.m.digest,
            "samples": ctx.samples,
        },
        "assumptions": lv.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if new:
        rp = os.path.join("evidence", pid + ".violations.txt")
        with open(os.path.join(HERE, rp), "w") as fh:
            for f in new:
                fh.write(f.text() + "\n")
        for f in new[:25]:
            print(f.text())
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} tier={tier}: {ctx.discharged} obligations on {ctx.npaths} paths of {len(ctx.analysed)} functions hold")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS-BROKEN internal error")
        sys.exit(2)
