#!/usr/bin/env python3
"""Decides one property: runs its deductive-verification jobs against /repo's working tree.

usage: check.py PROPERTY [--tier quick|thorough]

exit 0  every obligation that could be decided holds
exit 1  VIOLATION line printed (a named obligation fails)
exit 2  the check itself could not run (build failure, no obligations generated, ...)
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import props  # noqa: E402
import kani   # noqa: E402
import vrun   # noqa: E402


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        out = json.load(open(p))["findings"]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="developer aid: only jobs whose name contains this")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid, tier = a.property, a.tier
    P = props.PROPERTIES[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vk-%s-" % pid, dir="/tmp")
    replay_dir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    results = []      # one dict per job
    violations = []   # (obligation name, replay path, input_found)
    try:
        ctx = dict(verif=VERIF, repo=REPO, scratch=scratch, tier=tier, seed=seed, pid=pid, replay_dir=replay_dir, deadline=t0 + (780 if tier == "quick" else 3600))
        for job in P["jobs"]:
            if tier == "quick" and job.get("thorough_only"):
                continue
            if a.only and a.only not in job["name"]:
                continue
            runner = {"kani": kani.run_job, "verus": vrun.run_job}[job["tool"]]
            t = time.time()
            r = runner(ctx, job)
            r["wall_s"] = round(time.time() - t, 1)
            r["job"] = job["name"]
            r["scope"] = job["scope"]
            results.append(r)
            for u in r["units"]:
                print("  [%s] %s: %s (%s obligations, %ss)%s" % (job["name"], u["name"], u["status"], u["obligations"], u["time_s"],
                      " BOUNDED" if u.get("bounded") else ""))
            sys.stdout.flush()
            if ctx.get("found"):
                break
    except Exception as e:
        traceback.print_exc()
        print("ERROR: %s" % e)
        shutil.rmtree(scratch, ignore_errors=True)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = [k for k in known_findings() if k["property"] == pid and k.get("status", "open") == "open"]
    proved = bounded = disc = bdisc = undecided = 0
    vac = []
    for r in results:
        for u in r["units"]:
            n = u["obligations"]
            if u.get("bounded"):
                bounded += n
                bdisc += u["discharged"]
            else:
                proved += n
                disc += u["discharged"]
            if u["status"] == "undecided":
                undecided += 1
            if u["status"] == "vacuous":
                vac.append(u["name"])
            if u["status"] == "failed":
                k = next((k for k in known if k["obligation"] == u["name"]), None)
                if k:
                    u["known_finding"] = k["what"]
                    continue
                violations.append((u["name"], u["replay"], u["input_found"]))
    for k in known:
        hit = any(u["name"] == k["obligation"] and u["status"] == "failed" for r in results for u in r["units"])
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": proved, "discharged": disc,
            "checker_cmd": "; ".join(sorted({r["cmd"] for r in results})),
            "trusted_base": P["trusted"],
            "bounded_obligations_not_counted_as_proved": bounded,
            "bounded_discharged": bdisc,
            "undecided_units": undecided,
            "functions_under_contract": P["functions"],
            "explanation": P["explanation"],
            "bounds": [j["name"] + ": " + j["scope"] for j in P["jobs"] if not (tier == "quick" and j.get("thorough_only"))],
            "units": [dict(job=r["job"], **{k: u[k] for k in ("name", "status", "obligations", "discharged", "time_s", "backend") if k in u},
                           bounded=bool(u.get("bounded"))) for r in results for u in r["units"]],
            "job_wall_s": {r["job"]: r["wall_s"] for r in results},
            "solver_time_s": round(sum(u.get("time_s", 0) for r in results for u in r["units"]), 2),
        },
        "assumptions": P["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if P["level"] == "model_checking":
        ev["coverage"].update(states=bounded, transitions=bdisc, traces_validated_against_impl=0)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        if any(v[2] for v in violations):
            violations = [v for v in violations if v[2]]
        for name, path, found in violations[:3]:
            print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
        return 1
    if vac:
        print("ERROR: vacuous obligations: %s" % ", ".join(vac))
        return 2
    if proved + bounded == 0 and undecided:
        print("UNDECIDED property=%s: no obligation could be generated from this source" % pid)
        return 0
    if proved + bounded == 0:
        print("ERROR: no obligation was generated")
        return 2
    print("OK property=%s proved %d/%d bounded %d/%d undecided units %d in %.0fs" % (pid, disc, proved, bdisc, bounded, undecided, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
