#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of the tree in /repo.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import json, os, sys, time, traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
prop = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import driver, components, attribution
from driver import *


def known():
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                res.append(json.loads(line[len("finding: "):]))
    return res


KNOWN = known()


def listed_finding(d):
    return any(f["property"] == prop and all(d.get(a) == b for a, b in f["match"].items()) for f in KNOWN)


def main():
    os.makedirs(EVID, exist_ok=True)
    ctx = Ctx(prop)
    ctx.mine = lambda d: prop in attribution.props_of(d) and not listed_finding(d)
    try:
        broken = None
        for name, opts in attribution.RUNS[prop]:
            log("component", name, opts)
            try:
                getattr(components, name)(ctx, **opts)
            except Settled:
                break
            except InfraError as e:
                broken = e
        hits = [d for d in ctx.divs if prop in attribution.props_of(d)]
        if broken and not hits:
            raise broken
    finally:
        ctx.close()
    other = len(ctx.divs) - len(hits)
    fresh, listed = [], []
    for d in hits:
        (listed if listed_finding(d) else fresh).append(d)
    for d in listed[:5]:
        print("KNOWN-FINDING: property=%s %s %s %s" % (prop, d["comp"], d["op"], d["case"][:200]))
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.replayed + ctx.events,
            "replayed_cases": ctx.replayed, "replayed_cases_with_injected_failure": ctx.fired, "trace_events_validated": ctx.events,
            "models": ctx.models[:80], "samples": ctx.samples[:12] or ["none"],
            "divergences_of_other_properties": other, "jobs_skipped_for_time": ctx.skipped,
        },
        "assumptions": attribution.ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2), "violations": len(fresh),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for d in [x for x in ctx.divs if x not in hits][:5]:
        log("divergence attributed elsewhere:", d["comp"], d["variant"], d["tag"], d["op"], d["fault"], d["case"][:160])
    if fresh:
        rep = os.path.join(EVID, "replay-%s.txt" % prop)
        with open(rep, "w") as f:
            f.write("property %s, tier %s, seed %d, tree %s\nre-run: cd /verif && VERIF_SEED=%d ./check.py %s %s\n\n" % (prop, TIER, SEED, REPO, SEED, prop, TIER))
            for d in fresh[:60]:
                f.write("component %(comp)s, build %(variant)s, clause %(tag)s, operation %(op)s, failure %(fault)s\n  case:   %(case)s\n  detail: %(detail)s\n  run:    %(cmd)s\n\n" % d)
        d = fresh[0]
        print("%s/%s %s %s fault=%s\n  case: %s\n  %s" % (d["comp"], d["variant"], d["tag"], d["op"], d["fault"], d["case"][:1500], d["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("OK property=%s states=%d transitions=%d validated=%d wall=%.1fs" % (prop, ctx.states, ctx.transitions, ctx.replayed + ctx.events, time.time() - T0))
    return 0


try:
    rc = main()
except InfraError as e:
    print("ERROR:", e)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
