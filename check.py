#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   run one property's check
   check.py --replay FILE               run a saved counterexample against /repo's current tree"""
import json, os, shutil, sys, time, threading
import concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props

def known_findings():
    known, path = [], os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known: "): known.append(json.loads(l[7:]))
    return known

def do_replay(path):
    d = json.load(open(os.path.join(path, "job.json")))
    w = core.Work("replay")
    try:
        j = core.Job(d["h"], d["cfg"], real=d["real"], files=d["files"], **d["params"])
        ok, log = core.replay(w, j, dict(kind=d["kind"], replay=os.path.join(path, "input.txt")))
        print(log); print("REPRODUCED" if ok else "not reproduced")
        return 1 if ok else 0
    finally: w.close()

def main():
    if sys.argv[1] == "--replay": return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    core.ensure_engine()
    work = core.Work(pid)
    gate = core.MemGate(24.0)
    budget = float(os.environ.get("VP_BUDGET", P.get("budget", 700) if tier == "quick" else 6 * 3600))
    deadline = core.Deadline(t0 + budget)
    jobs = P["jobs"](tier)
    jobs.sort(key=lambda j: -j.mem)
    results = []
    try:
        with cf.ThreadPoolExecutor(core.NCPU) as ex:
            fs = [ex.submit(core.run_job, work, gate, j, i, deadline, seed, 400 if tier == "quick" else 4 * 3600) for i, j in enumerate(jobs)]
            for f in fs: results.append(f.result())
        return finish(pid, tier, seed, P, results, t0)
    finally:
        work.close()

def finish(pid, tier, seed, P, results, t0):
    known, nviol, rc = known_findings(), 0, 0
    rdir = os.path.join(core.BUILD, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k["property"] == pid and k["harness"] == r["obj"].h and k["label"] == v["label"] and k.get("kind", v["kind"]) == v["kind"]), None)
            if k:
                print(f"KNOWN-FINDING: property={pid} {k['what']}"); continue
            d = os.path.join(rdir, str(nviol)); os.makedirs(d)
            shutil.copy(v["replay"], os.path.join(d, "input.txt"))
            j = r["obj"]
            json.dump(dict(h=j.h, cfg=j.cfg, real=j.real, files=j.files, params=j.params, kind=v["kind"], label=v["label"], where=v["where"], detail=v["detail"]),
                      open(os.path.join(d, "job.json"), "w"), indent=1)
            open(os.path.join(d, "log.txt"), "w").write(v["log"])
            print(f"{r['job']}: {core.describe(v)}")
            if nviol < 3: print(f"VIOLATION property={pid} replay={d}")
            nviol += 1; rc = 1
    inc = [r for r in results if r["status"] == "inconclusive"]
    for r in inc: print(f"note: {r['job']} inconclusive: {r['reason'][:400]}")
    S = lambda k: sum(r["stats"].get(k, 0) for r in results if r["stats"])
    fns = sorted({f for r in results for f in (r["stats"].get("functions") or []) if not f.startswith(("vp_", "h_", "sp_"))})
    held = [r for r in results if r["status"] == "held"]
    cov = dict(
        states=S("paths") + S("merges") + S("forks"), transitions=S("instrs"),
        traces_validated_against_impl=sum(r["traces"] for r in results),
        samples=[dict(job=r["job"], status=r["status"], paths=r["stats"].get("paths"), forks=r["stats"].get("forks"), instructions=r["stats"].get("instrs"),
                      hash_calls=r["stats"].get("hash_calls"), assertions=r["stats"].get("asserts"), queries=r["stats"].get("queries"), solver_s=r["stats"].get("solver_s"),
                      wall_s=r["stats"].get("wall_s"), reason=r["reason"][:300]) for r in results],
        jobs=len(results), jobs_held=len(held), jobs_inconclusive=[dict(job=r["job"], reason=r["reason"][:300]) for r in inc],
        functions_encoded=fns, bounds=P["bounds"], outside=P.get("outside", ""), stubs=P.get("stubs", core_stubs),
        paths=S("paths"), instructions=S("instrs"), assertions=S("asserts"), assertions_decided_by_normalisation=S("asserts_syntactic"),
        assertions_decided_with_solver=S("asserts_solver"), solver_queries=S("queries"), solver_cached=S("query_hits"), solver_sat=S("sat"), solver_unsat=S("unsat"), solver_unknown=S("unknown"),
        solver_s=round(S("solver_s"), 2), equivalences_proved_by_sweeping=S("sweep_proved"), congruence_steps=S("congruence"), case_splits=S("case_splits"),
        vacuity_witnesses=sorted({c for r in results if r["stats"] for c, n in r["stats"].get("cover", {}).items() if n}))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=P.get("assumptions", core_assumptions), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: {len(held)}/{len(results)} jobs held, {nviol} violations, {len(inc)} inconclusive, {S('instrs')} instructions, {S('queries')} queries, {time.time()-t0:.1f} s")
    if not rc and not held and not S("asserts"): rc = 2   # nothing was explored at all
    return rc

core_stubs = props.STUBS
core_assumptions = props.ASSUMPTIONS
if __name__ == "__main__":
    sys.exit(main())
