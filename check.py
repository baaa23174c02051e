#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property on /repo's working tree.

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken.
Exit 3: no verdict (build failure, or a harness that saw nothing or timed out)."""
import json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import driver
from plans import PLANS

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    plan = PLANS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="moths-%s-" % pid, dir="/tmp")
    os.chmod(work, 0o755)
    res = driver.Result()
    try:
        ctx = {"work": work, "seed": seed, "tier": tier, "thorough": tier == "thorough", "repo": driver.REPO}
        try:
            driver.Builder(work).build(plan["build"])
        except driver.BuildError as e:
            print("cannot build:", e)
            return 3
        t_build = time.time() - t0
        jobs = plan["jobs"](ctx)
        if replay:
            jobs = [j for j in jobs if j.name == replay["job"]]
            for j in jobs:
                if replay["case"] is not None:
                    j.cmd = j.cmd + ["--only", str(replay["case"])]
        for j in jobs:
            j.known_keys = frozenset(k for p, k, _ in driver.known_findings() if p == pid)
        # Jobs that need the machine to themselves run after the others.
        driver.run_jobs([j for j in jobs if not getattr(j, "alone", False)], work, res)
        driver.run_jobs([j for j in jobs if getattr(j, "alone", False)], work, res, parallel=plan.get("alone_parallel", 1))
    finally:
        os.environ.get("KEEP") or shutil.rmtree(work, ignore_errors=True)

    known = [(k, what) for p, k, what in driver.known_findings() if p == pid]
    seen_known, fresh = {}, {}
    for v in res.violations:
        hit = [what for k, what in known if k == v["key"]]
        (seen_known if hit else fresh).setdefault(v["key"], v)
        if hit:
            v["what"] = hit[0]
    missing = [] if replay else [k for k in plan.get("need", []) if not res.stats.get(k)]

    wall = time.time() - t0
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"),
        "coverage": {
            "evaluations": res.cases, "distinct_nontrivial": res.distinct,
            "rule": plan["rule"], "samples": res.samples[:6] or ["(none)"],
            "observed": res.stats, "jobs": res.jobs[:80], "build_s": round(t_build, 1),
            "inconclusive": res.inconclusive[:5], "known_findings_seen": sorted(seen_known),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": len(fresh),
    }
    if not replay:
        os.makedirs(os.path.join(driver.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(driver.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for key, v in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, v["what"]))
    if fresh:
        for n, (key, v) in enumerate(fresh.items()):
            path = "(replayed)"
            if not replay:
                os.makedirs(os.path.join(driver.VERIF, "replays"), exist_ok=True)
                path = os.path.join(driver.VERIF, "replays", "%s-%d-%d.json" % (pid, seed, n))
                with open(path, "w") as f:
                    json.dump({"property": pid, "seed": seed, "tier": tier, "job": v["job"].name, "case": v["case"], "key": key, "msg": v["msg"],
                               "replay_with": "python3 /verif/check.py %s --replay %s" % (pid, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s (job %s, case %s): %s" % (key, v["job"].name, v["case"], v["msg"][:1500]))
        return 1
    if res.inconclusive:
        print("NO VERDICT:", *res.inconclusive, sep="\n  ")
        return 3
    if missing:
        print("NO VERDICT: the run never observed: %s" % ", ".join(missing))
        return 3
    print("held: property=%s evaluations=%d distinct=%d wall=%.1fs" % (pid, res.cases, res.distinct, wall))
    return 0

try:
    code = main()
except Exception: # this machinery's own trouble says nothing about the property
    import traceback
    traceback.print_exc()
    code = 3
sys.exit(code)
