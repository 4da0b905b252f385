#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: build the harnesses of one property
from /repo's current sources, explore, report, write evidence."""
import json, os, subprocess, sys, time, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from props import PROPS

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) scenario=(\S+) match=(.*?) :: (.*)", line.strip())
        if m:
            out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    rc, out = build.build(P["harness"])
    tb = time.time() - t0
    if rc:
        print("\n".join(out.splitlines()[-40:]))
        print(f"check {pid}: the build of /repo's sources failed")
        sys.exit(2)
    quick, thorough = P.get("time", (60, 1500))
    budget = quick if tier == "quick" else thorough
    if os.environ.get("MC_TIME"):
        budget = float(os.environ["MC_TIME"])
    runs, vios, errs = [], [], []
    # harnesses on real MPI and PETSc run once per number of ranks
    jobs = [(h, R) for h in P["harness"] for R in P.get("ranks", {}).get(h, [0])]
    share = P.get("share", {})
    total = sum(share.get(R, 1) for _, R in jobs)
    for h, R in jobs:
        res = os.path.join(build.OUT, f"res_{pid}_{h}{R or ''}.json")
        if os.path.exists(res):
            os.remove(res)
        cmd = [os.path.join(build.OUT, h), "--tier", tier, "--time",
               str(budget * share.get(R, 1) / total), "--out", res]
        if R:
            cmd += ["--ranks", str(R)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", cwd=build.OUT)
        if not os.path.exists(res):
            print(r.stdout[-3000:], r.stderr[-3000:])
            errs.append(f"{h} {R}: no result (exit {r.returncode})")
            continue
        d = json.load(open(res))
        d["harness"] = h
        runs.append(d)
        if d["unreproduced"]:
            print(r.stderr[-2000:])
            errs.append(f"{h}: {d['unreproduced']} executions failed once and did not repeat")
        for v in d["violations"]:
            vios.append((h, v))
    rdir = os.path.join(build.OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    new = 0
    kn = known()
    for k, (h, v) in enumerate(vios):
        f = os.path.join(rdir, f"{pid}-{k}.txt")
        open(f, "w").write(v["replay"] + "\n")
        what = f"[{h}/{v['scenario']}] {v['kind']}: {v['message']}"
        hit = [x for x in kn if x[0] == pid and x[1] == v["scenario"]
               and re.search(x[2], v["message"])]
        if hit:
            print(f"KNOWN-FINDING: property={pid} {hit[0][3]}")
            continue
        new += 1
        print(what)
        print(f"replay with: {build.OUT}/{h} --replay {f}")
        print(f"VIOLATION property={pid} replay={f}")
    def S(k):
        return sum(r[k] for r in runs)
    samples = []
    for r in runs:
        for s in r["scenarios"]:
            samples.append({"scenario": r["harness"] + "/" + s["name"],
                            "executions": s["executions"],
                            "choice_nodes": s["nodes"],
                            "nontrivial": s["nontrivial"],
                            "distinct_outcomes": s["distinct_outcomes"],
                            "schedule_deviating_executions": s["schedule_deviating"],
                            "longest_execution_choices": s["max_choices"],
                            "bound_exhausted": s["exhausted"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": S("nodes"),
              "transitions": S("work_items") + S("atomics") + S("launches"),
              "traces_validated_against_impl": S("executions"),
              "samples": samples,
              "exhaustive": bool(runs) and all(r["exhausted"] for r in runs),
              "distinct_outcomes": S("distinct_outcomes"),
              "nontrivial_executions": S("nontrivial"),
              "discarded_vacuous_inputs": S("discarded"),
              "checked_memory_accesses": S("checked_accesses"),
              "work_items": S("work_items"), "device_atomics": S("atomics"),
              "kernel_launches": S("launches"),
              "schedule_deviating_executions": S("schedule_deviating"),
              "explanation": "states = distinct nodes of the choice tree "
              "(inputs, rank/command/work-item schedules) visited; transitions"
              " = device work-items + device atomic steps + kernel launches "
              "executed under the controlled runtime; traces = complete "
              "executions, each of which runs the implementation itself "
              "(compiled from /repo) and is judged on that execution.",
              "build_s": round(tb, 1)},
          "assumptions": P.get("assumptions", []) + [
              "bounds: " + P["bounds"],
              "SYCL is replaced by a controlled runtime, MPI and PETSc are "
              "the real ones" if P.get("ranks") else
              "SYCL and MPI are replaced by a controlled runtime; it was "
              "validated by running the repository's own tests on it",
          ],
          "wall_s": round(time.time() - t0, 2), "violations": new}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    tot = S("executions") if runs else 0
    print(f"{pid} {tier}: {tot} executions, {ev['coverage']['states']} states, "
          f"exhaustive={ev['coverage']['exhaustive']}, {new} violations, "
          f"{time.time()-t0:.1f} s (build {tb:.1f} s)")
    if new:
        sys.exit(1)
    if errs:
        print("\n".join(errs))
        sys.exit(2)
    if tot == 0:
        sys.exit(2)
    sys.exit(0)

main()
