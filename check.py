#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE]  -- decide one property for /repo's current tree"""
import json, os, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vm, plans
EVID = os.environ.get("VERIF_EVID") or os.path.join(vm.VERIF, "evidence")

def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = vm.Ctx()
    try:
        run = plans.Run(ctx, pid, thorough, seed)
        if replay:
            run.replay_lines = json.load(open(replay))
        with ThreadPoolExecutor(1) as ex:
            laws = None if replay else ex.submit(plans.design, run)
            plans.PLANS[pid](run)
            try:
                if laws: laws.result()
            except vm.Infra:
                if not run.rejects: raise
        return finish(run, time.time() - t0)
    except vm.BuildError as e:
        run.reject({"line": "build", "op": "build"}, "the driver does not compile against /repo: " + str(e))
        return finish(run, time.time() - t0)
    except vm.Infra as e:
        print("INFRASTRUCTURE: " + str(e))
        return 2
    finally:
        ctx.close()

def finish(run, wall):
    known = load_known(run.pid)
    new, seen = [], {}
    for r in run.rejects:
        k = next((f for f in known if matches(f, r)), None)
        if k: seen[k["what"]] = k
        else: new.append(r)
    for k in known:
        if k["what"] in seen or not run.partial:
            pass
    for w in seen: print("KNOWN-FINDING: property=%s %s" % (run.pid, w))
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, run.pid + ".replay.json")
    if new:
        with open(rp, "w") as o: json.dump(new[:50], o, indent=1)
        for r in new[:5]: print("  %s :: %s" % (str(r["line"])[:300], str(r["why"])[:300]))
        print("  %d rejected of %d" % (len(new), run.traces))
        print("VIOLATION property=%s replay=%s" % (run.pid, rp))
    elif os.path.exists(rp): os.unlink(rp)
    ev = {"property": run.pid, "tier": "thorough" if run.thorough else "quick", "seed": run.seed, "level": "model_checking",
          "coverage": {"states": run.ctx.states, "transitions": run.ctx.transitions,
                       "traces_validated_against_impl": run.traces, "samples": run.samples[:12],
                       **run.extra, **({"design": run.design} if run.design else {})},
          "assumptions": run.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
    with open(os.path.join(EVID, run.pid + ".json"), "w") as o: json.dump(ev, o, indent=1)
    print("%s: %d calls validated, %d model states, %.1f s, %d violations" % (run.pid, run.traces, run.ctx.states, wall, len(new)))
    return 1 if new else 0

def load_known(pid):
    f = os.path.join(vm.VERIF, "known_findings.jsonl")
    if not os.path.exists(f): return []
    return [k for k in (json.loads(l) for l in open(f) if l.strip()) if k.get("property") == pid and k.get("status") == "known"]

def matches(f, r):
    return f["line"] == r["line"] and f["why"] == r["why"]

if __name__ == "__main__":
    sys.exit(main())
