"""Definition of the properties and of the check that decides each one.
`python3 props.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))

P = []       # property records
CHECKS = {}  # id -> check configuration
NA = []      # not applicable

MPI_REAL = "real code: all of src/ (mesh, adaptation, migration, ghosting, exchange, files, and the command-line tools for D21) compiled from the working tree"
MPI_STUB = "stub: MPI (sim/simmpi.cpp), wall clock, allocator pass-through, file system calls below the scratch directory"

OMP_REAL = "real code: the OpenMP back end as compiled by gcc (outlined regions, tasks, reductions, tpl/pss), with memory accesses instrumented"
OMP_STUB = "stub: the OpenMP runtime library (sim/omp_rt.cpp: teams, barriers, tasks, locks as scheduled fibers)"


def prop(pid, title, statement, over, over_text, why, files, mechanism, check=None, na=None, observe=None):
    rec = {"id": pid, "title": title, "statement": statement,
           "quantifier": {"over": over, "text": over_text},
           "why_tests_cant": why,
           "anchors": {"files": files,
                       "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if observe:
        rec["anchors"]["observe_at"] = observe
    P.append(rec)
    if na:
        NA.append({"property": pid, "reason": na})
    if check:
        CHECKS[pid] = check


def check(runs, rule, note, variant="mpi", secs=60, thorough=600, level="exploration",
          technique="deterministic simulation with fault injection: seeded search over simulated runs",
          assumptions=(), args=()):
    return dict(runs=runs, rule=rule, note=note, variant=variant, secs=secs, thorough=thorough,
                level=level, technique=technique, assumptions=list(assumptions), args=list(args))


COMMON = ["the simulated MPI layer is a legal MPI implementation (non-overtaking per channel, eager or rendezvous sends, "
          "collectives that may return before others enter, late completion of receives)",
          "ranks share one address space; mutable globals of the library are swapped per rank"]

from properties import define  # noqa: E402
define(prop, check, COMMON)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 build.py " + " ".join(sorted({c["variant"] for c in CHECKS.values()})),
         "checks": [], "not_applicable": NA,
         "notes": "Every check builds the simulator against /repo's working tree (build.py) and runs a seeded search "
                  "(VERIF_SEED). No hooks in /repo are needed: MPI, the clock, the allocator, the file layer and the "
                  "OpenMP runtime are replaced at link level. Replay a failure with .build/<variant>/omsim replay FILE."}
    for pid, c in CHECKS.items():
        m["checks"].append({"property": pid,
                            "quick_cmd": f"python3 check.py {pid} --tier quick",
                            "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                            "evidence_file": f"evidence/{pid}.json",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
