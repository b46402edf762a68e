#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough]
Build the simulator from /repo's working tree, search, write evidence.
exit 0: held on everything explored; 1: violation (VIOLATION line); 2: no verdict."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
import build as builder
import props


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = props.CHECKS[pid]
    t0 = time.time()
    exe = builder.build(c["variant"])
    t_build = time.time() - t0
    js = os.path.join(os.path.dirname(exe), f"{pid}.json")
    if os.path.exists(js):
        os.remove(js)
    runs, secs = (c["runs"], c["secs"]) if tier == "quick" else (10 ** 9, c["thorough"])
    os.makedirs("evidence", exist_ok=True)
    r = subprocess.run([exe, "search", pid, f"--runs={runs}", f"--secs={secs}", f"--seed={seed}",
                        "--known=known_findings.txt", f"--json={js}", f"--out={HERE}/out",
                        f"--twice={40 if tier == 'quick' else 200}"] + c["args"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    if not os.path.exists(js):
        print("no result from the simulator", file=sys.stderr)
        return 2
    d = json.load(open(js))
    s = max(d["search_seconds"], 1e-3)
    cov = {"evaluations": d["runs"], "distinct_nontrivial": d["distinct"], "rule": c["rule"],
           "samples": d["samples"],
           "simulated_worlds": d["worlds"], "runs_per_hour": int(d["runs"] / s * 3600),
           "seeds_per_hour": int(d["runs"] / s * 3600), "search_seconds": s, "build_seconds": round(t_build, 1),
           "simulated_seconds": d["simulated_seconds"], "runs_with_faults": d["runs_with_faults"],
           "scheduling_steps": d["sched_steps"], "context_switches": d["context_switches"],
           "messages": d["messages"], "collectives": d["collectives"],
           "faults_fired": d["faults"], "probes": d["probes"], "runs_per_scenario": d["scenarios"],
           "known_findings_hit": d["known"],
           "determinism_recheck": {"runs_repeated": d["rechecked"], "different": d["recheck_mismatches"]},
           "log_digest": d["all_hash"],
           "interleaving_measure": "hash of every scheduling, delivery and fault decision combined with the hash of "
                                   "the observed results; runs without any non-default decision are not counted",
           "components": [props.MPI_REAL, props.MPI_STUB] + ([props.OMP_REAL, props.OMP_STUB] if c["variant"] == "omp" else [])}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": props.COMMON + c["assumptions"], "wall_s": round(time.time() - t0, 1),
          "violations": len(d["violations"])}
    if d["violations"]:
        ev["coverage"]["violation"] = d["violations"]
    with open(f"evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
