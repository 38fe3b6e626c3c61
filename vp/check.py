#!/usr/bin/env python3
"""check.py <property>: decide one property. Exit 0: held on everything explored, 1: violated, 2: no answer.
A job that gives no answer (the tool fails, time runs out, a renamed function) is never an alarm: it is named
in the output and in the evidence as not re-proved, and the remaining jobs decide."""
import json, os, sys, time, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor, as_completed
import engine as E, units as U

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    us = [u for u in U.UNITS if prop in u.props]
    if not us: print("no unit decides", prop); return 2
    tmp = tempfile.mkdtemp(prefix="vp_")
    jobs = [j for u in us for j in u.jobs(tier) if not j.props or prop in j.props.split()]
    jobs.sort(key=lambda j: -j.weight)
    results = []
    nproc = int(os.environ.get("VP_JOBS", "8"))
    violations, errors = [], []
    try:
        with ThreadPoolExecutor(nproc) as ex:
            fut = {ex.submit(E.run_job, j, tmp, prop): j for j in jobs}
            for f in as_completed(fut):
                results.append((fut[f], f.result()))
        for j, r in results:
            if r["error"]: errors.append("%s/%s: %s" % (r["unit"], r["job"], r["error"]))
        # failed obligations: executions first (they carry their input), then proofs; replayed until one is confirmed
        confirmed, tried = False, 0
        for j, r in sorted(results, key=lambda x: (x[0].mode != "native", x[1]["wall"])):
            mine = []
            for f in r["failed"]:
                tg = E.tags(f["desc"])
                if tg is None or prop in tg: mine.append(f)
            if not mine: continue
            order = [f for f in mine if E.tags(f["desc"])] + [f for f in mine if not E.tags(f["desc"]) and not E.is_unwind(f)] + [f for f in mine if E.is_unwind(f)]
            if confirmed or tried > 6:
                if not E.is_unwind(order[0]): violations.append((False, None, order[0]))
                continue
            done = False
            for f in order[:2]:
                tried += 1
                ok, path = E.replay(prop, j, f, r, tmp)
                if ok: violations.append((True, path, f)); done = confirmed = True; break
                if not E.is_unwind(f) and not done: violations.append((False, path, f)); done = True
            if not done: errors.append("%s/%s: loop bound exceeded" % (r["unit"], r["job"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ob = sum(r["obligations"] for j, r in results if not j.bounded); di = sum(r["discharged"] for j, r in results if not j.bounded)
    bob = sum(r["obligations"] for j, r in results if j.bounded); bdi = sum(r["discharged"] for j, r in results if j.bounded)
    fns = sorted({fn for u in us for fn in u.functions})
    ev = dict(property=prop, tier=tier, seed=seed, level=U.LEVEL.get(prop, "proof"),
        coverage=dict(obligations=ob, discharged=di, checker_cmd="python3 vp/check.py %s" % prop,
            trusted_base=U.TRUSTED,
            functions_under_contract=fns,
            proved_units="%d jobs: every input in the stated domain, no loop bound" % len([1 for j, r in results if not j.bounded]),
            bounded_obligations=bob, bounded_discharged=bdi,
            bounded_note="bounded obligations stand in where the function is out of the verifier's reach in full; they are not counted as proved",
            bounded_contract_executions=sum(r.get("scenarios", 0) for _, r in results),
            verification_conditions=sum(r["vccs"] for _, r in results),
            back_end="cbmc 6.11.0 (goto-instrument --dfcc loop contracts in unit fun_loop); MiniSat, z3 4.8.12 for u_hash and u_crc_fold",
            solver_s=round(sum(r["solver_s"] for _, r in results), 2),
            units=[dict(unit=r["unit"], job=r["job"], bounded=j.bounded, obligations=r["obligations"], discharged=r["discharged"],
                        vccs=r["vccs"], scenarios=r.get("scenarios"), wall_s=round(r["wall"], 1), error=r["error"]) for j, r in sorted(results, key=lambda x: (x[1]["unit"], x[1]["job"]))],
            bounds=[dict(unit=u.name, strength=u.strength, bound=u.bound) for u in us]),
        assumptions=sorted({a for u in us for a in u.assumes}),
        not_reproved=errors, wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(E.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(E.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for e in errors: print("NOT RE-PROVED:", e[:600])
    if violations:
        violations.sort(key=lambda v: (not v[0], v[1] is None))
        seen = 0
        for ok, path, f in violations:
            print("failed obligation %s (%s:%s in %s): %s" % (f["id"], f["file"], f["line"], f["fn"], f["desc"]))
        ok, path, f = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if ok else " no-failing-input-found"))
        return 1
    good = [r for _, r in results if not r["error"]]
    if not good: return 2     # nothing gave an answer
    print("%s held: %d obligations proved, %d bounded obligations, %d contract executions in %d jobs of %d units, %.0f s" % (prop, di, bdi, sum(r.get("scenarios", 0) for _, r in results), len(results), len(us), time.time() - t0))
    return 0

sys.exit(main())
