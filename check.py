#!/usr/bin/env python3
"""check.py <property> | --setup | --replay <file> | --all.   VERIF_TIER=quick|thorough, VERIF_SEED."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "gen"))
sys.dont_write_bytecode = True
import engine
import checks


def known():
    r = []
    with open(os.path.join(HERE, "known_findings.jsonl")) as f:
        for l in f:
            if l.strip():
                r.append(json.loads(l))
    return r


def run(pid, tier, seed):
    fn, bounds = checks.CHECKS[pid]
    t = time.time()
    res = engine.Result()
    try:
        fn(res, tier)
    except engine.EngineError as e:
        if not res.records:
            print("%s: no verdict: %s" % (pid, e), file=sys.stderr)
            return 2
        print("%s: stopped early: %s" % (pid, str(e)[:500]), file=sys.stderr)
    except Exception:
        traceback.print_exc()
        return 2
    # known findings: identified by the exact case and what was observed there
    listed = {(k["case"], k["got"]): k for k in known() if k.get("property") == pid and k.get("status") == "open"}
    rest, hit = [], []
    for r in res.records:
        k = listed.get((r["case"], r["got"]))
        if k:
            hit.append(k)
        else:
            rest.append(r)
    nviol = res.nviol - len(hit)
    wall = time.time() - t
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 1), violations=nviol,
              coverage=dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
                            cases=res.cases, distinct_outcomes=res.outcomes, bounds=bounds, exhaustive_within_bounds=True,
                            counters=dict(sorted(res.counters.items())[:40]), samples=[s[:300] for s in res.samples[:12]], notes=res.notes,
                            known_findings_observed=len(hit)),
              assumptions=["the toolchain compiles the generated programs faithfully", "the reference model in /verif/mc/src states the documented behaviour"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if nviol > 0 and rest:
        d = os.path.join(engine.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, violations=nviol, records=rest[:200]), f, indent=1)
        for r in rest[:3]:
            print("  %s %s\n    input    %s\n    expected %s\n    got      %s" % (r["case"], r["mode"], r["input"][:400], r["expected"][:600], r["got"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res.states == 0:
        print("%s: nothing explored" % pid, file=sys.stderr)
        return 2
    print("%s held: %d states, %d transitions, %d traces against the implementation, %d outcomes, %.1f s" % (pid, res.states, res.transitions, res.traces, res.outcomes, wall))
    return 0


def main(a):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if a == ["--setup"]:
        return engine.self_check()
    if a[0] == "--replay":
        return engine.replay(a[1])
    ids = sorted(checks.CHECKS) if a == ["--all"] else a
    return max(run(p, tier, seed) for p in ids)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
