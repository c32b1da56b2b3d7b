#!/opt/venv/bin/python
"""
check.py Cxx                 search (VERIF_SEED, VERIF_TIER), evidence, VIOLATION / KNOWN-FINDING lines; exit 0 or 1 (2: harness error)
check.py --replay FILE       execute a replay file again and compare
check.py Cxx --case I        execute one case of the search and show it
"""

import concurrent.futures
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
sys.path[:0] = [ROOT, REPO]
sys.dont_write_bytecode = True


def reexec(hashseed):
    if os.environ.get("PYTHONHASHSEED") != str(hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)


def windows(prop):
    """The simulated window system has to be in place before pyactr is imported."""
    if prop == "C18":
        from dst import gui
        gui.install()


def main(argv):
    if argv and argv[0] == "--serve":
        from dst import multi
        multi.serve()
        return 0
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            data = json.load(f)
        reexec(data["case"].get("hashseed", 0))
        windows(data["property"])
        from dst import checks, engine
        check = checks.get(data["property"])
        res = engine.run_case(check, data["case"])
        hit = [v for v in res.violations if v["kind"] == data["violation"]["kind"]]
        print(json.dumps({"violations": res.violations, "same_history": res.digest == data["digest"], "trace": res.trace}, indent=1))
        if hit:
            print("VIOLATION property=%s replay=%s" % (data["property"], argv[1]))
            return 1
        print("not reproduced")
        return 0

    windows(argv[0])
    from dst import checks, engine
    check = checks.get(argv[0])
    if "--worker" in argv:
        seed, lo, hi, stride, offset, deadline = json.loads(argv[argv.index("--worker") + 1])
        engine.worker(check, seed, lo, hi, stride, offset, deadline, sys.stdout)
        return 0
    if "--minimise" in argv:
        print(json.dumps(engine.minimise_here(check, json.load(sys.stdin))))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--case" in argv:
        i = int(argv[argv.index("--case") + 1])
        case = check.case(seed, i)
        res = engine.run_case(check, case)
        print(json.dumps({"case": case, "violations": res.violations, "trace": res.trace, "counters": res.counters}, indent=1))
        return 1 if res.violations else 0

    t0 = time.time()
    jobs = int(os.environ.get("DST_JOBS", os.cpu_count() or 4))
    n = check.quick if tier == "quick" else check.thorough
    if os.environ.get("DST_CASES"):
        n = int(os.environ["DST_CASES"])
    seconds = float(os.environ.get("DST_SECONDS", 420 if tier == "quick" else 7200))
    total, errors = engine.search(check, seed, n, jobs, seconds)
    status = 0
    for text in errors:
        sys.stderr.write(text + "\n")
        status = 2
    findings = {f["id"]: f for f in engine.load_findings() if f["property"] == check.id}
    reports = []
    kinds = set()
    for f in total["found"]:
        k = f["violation"]["kind"]
        if k in kinds or len(kinds) >= 3:
            continue
        kinds.add(k)
        reports.append(f)
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        reports = list(pool.map(lambda f: engine.minimise(check, f), reports))
    wall = time.time() - t0
    write_evidence(check, tier, seed, total, wall, n, errors)
    for fid, f in findings.items():
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (check.id, f["what"], total["known"].get(fid, 0)))
    for path, v in reports:
        print("%s: %s" % (v["kind"], v["message"]))
        for line in v.get("events", []):
            print("   " + str(line))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        status = 1
    print("%s %s: %d cases, %d simulated runs, %d violations, %.1f s" % (check.id, tier, total["cases"], total["runs"], total["violations"], wall))
    if total["cases"] == 0 and status == 0:
        sys.stderr.write("nothing was run\n")
        status = 2
    return status


def write_evidence(check, tier, seed, total, wall, n, errors):
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": total["nontrivial"],
        "rule": check.rule,
        "samples": total["samples"][:3],
        "cases": total["cases"],
        "cases_planned": n,
        "stopped_early": total["stopped_early"],
        "runs_per_hour": int(total["runs"] / max(wall, 1e-9) * 3600),
        "seeds_per_hour": int(total["cases"] / max(wall, 1e-9) * 3600),
        "simulated_seconds": round(total["simtime"], 3),
        "distinct_event_orders": total["orders"],
        "distinct_states": total["states"],
        "state_measure": "distinct combinations of (which buffers are full, all module states) between two steps; event orders: sequences of (module, action) without times",
        "injected": {k[7:]: c for k, c in sorted(total["counters"].items()) if k.startswith("inject:")},
        "reached": {k: c for k, c in sorted(total["counters"].items()) if not k.startswith("inject:")},
        "repeated_for_determinism": total["repeats"],
        "repeats_that_differed": total["repeat_differs"],
        "aborted_cases": total["aborted"],
        "known_findings_seen": total["known"],
        "real_components": check.real,
        "stubs": check.stubs,
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": check.assumptions,
          "wall_s": round(wall, 2), "violations": total["violations"]}
    path = os.path.join(d, "%s.json" % check.id)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
