"""
The search: seeded cases, executed one per process, judged, minimised, written down for replay.

A check is an object with
    id, nontrivial
    case(seed, i)      -> JSON data describing one simulated world, complete in itself
    execute(case)      -> Result (violations as dicts with "kind" and "message"; counters; digest)
    simpler(case)      -> smaller variants of a case, for minimisation
Every case runs in its own forked process: pyactr keeps state in classes (chunk types, similarities), and one seed
has to be one exactly repeatable execution whatever ran before it.
"""

import collections
import hashlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 40.0          # seconds of processor time for one case (usual: 0.05)
HASHSEEDS = 8             # string-hash seeds explored: worker w runs under PYTHONHASHSEED=w


class Result:
    def __init__(self):
        self.violations = []
        self.counters = collections.Counter()
        self.digest = ""
        self.order = ""          # digest of the order of events alone, without their times
        self.states = set()
        self.simtime = 0.0
        self.runs = 0
        self.trace = None
        self.aborted = None


def sig(v):
    return v["kind"]


def in_child(fn, cpu=CPU_LIMIT, wall=600):
    """Run fn() in a forked child; ("ok", value) | ("cpu", None) | ("wall", None) | ("error", text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            from . import seam

            def stop(*_):
                raise seam.WallStop()
            signal.signal(signal.SIGVTALRM, stop)
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            try:
                out = ("ok", fn())
            except seam.WallStop:
                out = ("cpu", None)
            except BaseException:
                out = ("error", traceback.format_exc())
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.time() + wall
    alive = True
    late = False
    while alive:
        ready, _, _ = select.select([r], [], [], max(0.1, deadline - time.time()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            late = True
            break
        data = os.read(r, 1 << 20)
        if not data:
            alive = False
        chunks.append(data)
    os.close(r)
    os.waitpid(pid, 0)
    if late and wall < 600:
        return ("wall", None)
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        return ("error", "the process of the case died")


def run_case(check, case):
    prepare = getattr(check, "prepare", None)
    if prepare:
        prepare(case)
    status, res = in_child(lambda: check.execute(case))
    if status == "ok":
        return res
    out = Result()
    if status == "cpu":
        if check.id == "C22":
            out.violations = [{"kind": "hang", "message": "the simulation does not end within %s seconds of processor time" % CPU_LIMIT}]
        else:
            out.aborted = "cpu"
        return out
    raise HarnessError(res)


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- minimisation

def shrink(check, case, target, budget=900, seconds=90):
    """Greedy delta debugging; every accepted variant shows a violation of the same kind."""
    t0 = time.time()
    best, tried, improved = case, 0, True
    while improved and tried < budget and time.time() - t0 < seconds:
        improved = False
        for cand in check.simpler(best):
            if tried >= budget or time.time() - t0 >= seconds:
                break
            tried += 1
            try:
                res = run_case(check, cand)
            except HarnessError:
                continue
            hit = [v for v in res.violations if v["kind"] == target]
            if hit:
                best = cand
                improved = True
                break
    return best, tried


# ---------------------------------------------------------------- known findings

def load_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x.get("status") == "finding"]


def known(findings, prop, v):
    for f in findings:
        if f["property"] != prop:
            continue
        m = f["match"]
        if m.get("kind") and m["kind"] != v["kind"]:
            continue
        if any(s not in v["message"] for s in m.get("message", ())):
            continue
        if any(v.get("facts", {}).get(k) != x for k, x in m.get("facts", {}).items()):
            continue
        return f
    return None


# ---------------------------------------------------------------- workers

def worker(check, seed, lo, hi, stride, offset, deadline, out):
    """Runs cases lo+offset, lo+offset+stride, ... < hi; a line of JSON per batch of results."""
    findings = load_findings()
    agg = new_agg()
    first = {}
    for i in range(lo + offset, hi, stride):
        if time.time() > deadline:
            agg["stopped_early"] = True
            break
        case = check.case(seed, i)
        if case is None:
            continue
        case["hashseed"] = os.environ.get("PYTHONHASHSEED", "random")
        try:
            res = run_case(check, case)
        except HarnessError as e:
            agg["harness_errors"] += 1
            if agg["harness_errors"] == 1:
                sys.stderr.write("case %d: %s\n" % (i, e))
            continue
        agg["cases"] += 1
        if res.aborted:
            agg["aborted"] += 1
            continue
        agg["runs"] += res.runs
        agg["simtime"] += res.simtime
        for k, n in res.counters.items():
            agg["counters"][k] = agg["counters"].get(k, 0) + n
        nontrivial = not check.nontrivial or any(res.counters.get(k) for k in check.nontrivial)
        if nontrivial:
            agg["nontrivial"].append(res.digest)
            if len(agg["samples"]) < 2:
                agg["samples"].append(sample(case, res))
        agg["orders"].append(res.order)
        agg["states"].extend(res.states)
        if (i - lo) // stride < 1:
            again = run_case(check, case)
            agg["repeats"] += 1
            if again.digest != res.digest:
                agg["repeat_differs"] += 1
        for v in res.violations:
            f = known(findings, check.id, v)
            if f is not None:
                agg["known"][f["id"]] = agg["known"].get(f["id"], 0) + 1
                continue
            agg["violations"] += 1
            if v["kind"] not in first:
                first[v["kind"]] = True
                agg["found"].append({"i": i, "case": case, "violation": v})
        if agg["violations"] >= 5 and not check.exhaust:
            break
    agg["orders"] = sorted(set(agg["orders"]))
    agg["nontrivial"] = sorted(set(agg["nontrivial"]))
    agg["states"] = sorted(set(agg["states"]))
    out.write(json.dumps(agg))
    out.flush()


def new_agg():
    return {"cases": 0, "runs": 0, "simtime": 0.0, "counters": {}, "nontrivial": [], "orders": [], "states": [], "samples": [], "known": {},
            "violations": 0, "found": [], "aborted": 0, "harness_errors": 0, "repeats": 0, "repeat_differs": 0, "stopped_early": False}


def sample(case, res):
    c = {k: v for k, v in case.items() if k != "spec"}
    if "spec" in case:
        c["rules"] = len(case["spec"]["rules"])
        c["first_rule"] = case["spec"]["rules"][0] if case["spec"]["rules"] else None
        c["params"] = case["spec"]["params"]
    return {"case": c, "events": (res.trace or [])[:12], "digest": res.digest}


def spawn(check_id, seed, lo, hi, stride, offset, deadline, hashseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env.pop("PYTHONPATH", None)
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    cmd = [sys.executable, os.path.join(ROOT, "check.py"), check_id, "--worker", json.dumps([seed, lo, hi, stride, offset, deadline])]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ROOT)


def search(check, seed, n, jobs, seconds):
    deadline = time.time() + seconds
    procs = [spawn(check.id, seed, 0, n, jobs, w, deadline, (seed * 31 + w) % 4096 + 1) for w in range(jobs)]
    total = new_agg()
    sets = {"nontrivial": set(), "orders": set(), "states": set()}
    errors = []
    for p in procs:
        out, err = p.communicate()
        if p.returncode != 0:
            errors.append(err.decode(errors="replace")[-3000:])
            continue
        a = json.loads(out)
        if a["harness_errors"]:
            errors.append("%d cases could not be judged; %s" % (a["harness_errors"], err.decode(errors="replace")[-3000:]))
        for k in ("cases", "runs", "simtime", "violations", "aborted", "harness_errors", "repeats", "repeat_differs"):
            total[k] += a[k]
        total["stopped_early"] = total["stopped_early"] or a["stopped_early"]
        for k in ("counters", "known"):
            for x, c in a[k].items():
                total[k][x] = total[k].get(x, 0) + c
        for k in sets:
            sets[k].update(a[k])
        total["samples"] += a["samples"]
        total["found"] += a["found"]
    for k in sets:
        total[k] = len(sets[k])
    total["found"].sort(key=lambda f: f["i"])
    return total, errors


# ---------------------------------------------------------------- replay files

def write_replay(check, case, violation, original, tried):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    res = run_case(check, case)
    v = [x for x in res.violations if x["kind"] == violation["kind"]]
    data = {"property": check.id, "violation": v[0] if v else violation, "case": case, "digest": res.digest, "trace": res.trace,
            "original_case_index": original, "minimisation_runs": tried}
    text = json.dumps(data, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (check.id, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text + "\n")
    return os.path.relpath(path, ROOT), (v[0] if v else violation)


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def minimise_here(check, f):
    kind = f["violation"]["kind"]
    seconds = float(os.environ.get("DST_SHRINK_SECONDS", 40))
    case, tried = shrink(check, f["case"], kind, seconds=seconds)
    return write_replay(check, case, f["violation"], f["i"], tried)


def minimise(check, f):
    """Minimise a failing case, under the string-hash seed it was found with."""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(f["case"].get("hashseed", 0))
    p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), check.id, "--minimise"], input=json.dumps(f).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ROOT)
    try:
        path, v = json.loads(p.stdout)
        return path, v
    except ValueError:
        return write_replay(check, f["case"], f["violation"], f["i"], 0)
