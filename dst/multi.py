"""
Properties of several executions together: the same model driven in different ways (C02), models side by side in one
process (C16), and the wall clock (C17).
"""

import ast
import copy
import json
import os
import random
import re
import subprocess
import sys

from . import engine, gen, run, seam, shrinker
from . import spec as specmod
from .engine import Result, digest
from .timeline import GROUP, Timeline, rule_from_object

INF = float("inf")


# ---------------------------------------------------------------- histories

def frozen(x):
    """Plain data with a representation that depends on nothing but its content."""
    if isinstance(x, dict):
        return ("D",) + tuple(sorted((str(k), frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(frozen(v) for v in x)
    if isinstance(x, float) or type(x).__name__.startswith("float"):
        return repr(float(x))
    return x if x is None or isinstance(x, (int, str)) else repr(x)


PARTS = ("the buffers", "the module states", "the declarative memory", "the utilities", "the screen", "the focus")


def state(s):
    return [digest(frozen(p)) for p in s.key()]


def rules_of(model):
    out = []
    for name in model.productions:
        p = model.productions[name]
        try:
            r = rule_from_object(name, p)
            body = frozen((r.lhs, r.rhs))
        except Exception as e:
            body = type(e).__name__
        out.append([name, repr(float(p["utility"])), repr(p["reward"]), digest(body)])
    return out


def history(r):
    """A run as plain data."""
    out = []
    for rec in r.recs:
        memo = {}
        ev = []
        for x in rec.steps:
            if x.ev is not None:
                key = id(x.s)
                if key not in memo:
                    memo[key] = state(x.s)
                ev.append([x.ev[0], x.ev[1], x.ev[2], x.t, memo[key], x.i])
        steps = [(x.t, x.s) for x in rec.steps]
        last = {}
        for cut in (INF, rec.session.get("max_time", r.spec.get("max_time", 1.0)) - GROUP):
            s = rec.initial
            for t, z in steps:
                if t < cut:
                    s = z
            last[repr(cut)] = state(s) if s is not None else None
        times = {x.i: x.t for x in rec.steps}
        draws = [[times.get(i, -1.0), kind, [repr(a) for a in args], repr(val)] for i, kind, args, val in rec.draws.log]
        out.append({"events": ev, "last": last, "draws": draws, "end": rec.end, "exc": rec.exc and [rec.exc["type"], rec.exc["msg"]],
                    "rest": rec.rest, "drained": drained(rec.env), "rules": rules_of(r.built.model) if r.built else None, "now": float(rec.sim.show_time()) if rec.sim is not None else 0.0,
                    "max": rec.session.get("max_time", r.spec.get("max_time", 1.0)), "out": None if rec.session.get("realtime") else [x for _, x in rec.out],
                    "trace": rec.session.get("trace", True)})
    return out


def drained(env):
    """Is the queue of events empty?  (An interrupted process leaves its timeout there: until that time pyactr does not know that it is at rest.)"""
    return env is not None and not any(item[0] > env.now for item in env._queue)


def differs(a, b, limit=False):
    """First difference between the histories of two sessions, as (kind, text), or None."""
    # (what happens at the very moment the run ends at may or may not belong to it)
    rest = a["rest"] and (b["rest"] or not a["events"] or a["events"][-1][3] < a["max"] - GROUP)
    cut = INF if rest else a["max"] - GROUP
    ea = [x for x in a["events"] if x[3] < cut]
    eb = [x for x in b["events"] if x[3] < cut]
    if "limit" in (a["end"], b["end"]):
        n = min(len(ea), len(eb))
        ea, eb = ea[:n], eb[:n]
        limit = True
    for i in range(max(len(ea), len(eb))):
        x = ea[i] if i < len(ea) else None
        y = eb[i] if i < len(eb) else None
        if x is None or y is None or x[:3] != y[:3]:
            return ("events", "event %d is %s instead of %s" % (i, show(y), show(x)))
        if abs(x[3] - y[3]) > 1e-9:
            return ("time", "event %d, %s, happens at %r instead of %r" % (i, show(x), y[3], x[3]))
        if x[4] != y[4]:
            p = [PARTS[j] for j in range(len(PARTS)) if x[4][j] != y[4][j]]
            return ("state", "after event %d, %s, %s not the same" % (i, show(x), " and ".join(p) + (" are" if len(p) > 1 or p[0].endswith("s") else " is")))
    if limit:
        return None
    if (a["end"] == "error") != (b["end"] == "error") or (a["end"] == "error" and a["exc"] != b["exc"]):
        return ("end", "it ends with %s instead of %s" % (b["exc"] or "no error", a["exc"] or "no error"))
    da = [x[1:] for x in a["draws"] if x[0] < cut]
    db = [x[1:] for x in b["draws"] if x[0] < cut]
    if da != db:
        return ("draws", "%d random draws instead of %d" % (len(db), len(da)) if len(da) != len(db) else "other random draws")
    key = repr(INF if rest else a["max"] - GROUP)
    if key in b["last"] and a["last"][key] != b["last"][key]:
        p = [PARTS[j] for j in range(len(PARTS)) if a["last"][key][j] != b["last"][key][j] and (j != 3 or not rest)]
    else:
        p = []
    if p:
        return ("state", "at the end %s not the same" % (" and ".join(p) + " are"))
    if rest and a["drained"] == b["drained"]:
        ra, rb = {x[0]: x for x in a["rules"]}, {x[0]: x for x in b["rules"]}
        if list(ra) != list(rb):
            return ("rules", "the rules at the end are %s instead of %s" % (list(rb), list(ra)))
        for n in ra:
            if ra[n] != rb[n]:
                return ("rules", "rule %s is not the same at the end (utility %s instead of %s)" % (n, rb[n][1], ra[n][1]))
    return None


def show(e):
    return "(%s, %s, %s)" % tuple(e[:3]) if e else "missing"


def alone(spec):
    """History of a specification executed in a process of its own."""
    status, h = engine.in_child(lambda: (lambda r: history(r))(run.run_spec(spec)))
    return h if status == "ok" else ({"status": status, "text": h})


# ---------------------------------------------------------------- other interpreters

class Interpreters:
    """Fresh Python interpreters with string-hash seeds of their own, kept for many cases."""

    def __init__(self):
        self.procs = {}
        self.n = 0

    def get(self, hashseed):
        p = self.procs.get(hashseed)
        if p is None or p.poll() is not None:
            env = dict(os.environ)
            env["PYTHONHASHSEED"] = str(hashseed)
            p = subprocess.Popen([sys.executable, os.path.join(engine.ROOT, "check.py"), "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, env=env, cwd=engine.ROOT)
            self.procs[hashseed] = p
        return p

    def ask(self, hashseed, spec):
        p = self.get(hashseed)
        self.n += 1
        ident = "%d-%d" % (os.getpid(), self.n)
        try:
            p.stdin.write((json.dumps({"id": ident, "spec": spec}) + "\n").encode())
            p.stdin.flush()
            while True:
                line = p.stdout.readline()
                if not line:
                    return {"status": "error", "text": "interpreter ended"}
                d = json.loads(line)
                if d["id"] == ident:
                    return d["history"]
        except (BrokenPipeError, ValueError) as e:
            return {"status": "error", "text": repr(e)}


INTERPRETERS = Interpreters()


def serve():
    """Main loop of such an interpreter."""
    for line in sys.stdin:
        d = json.loads(line)
        h = alone(d["spec"])
        sys.stdout.write(json.dumps({"id": d["id"], "history": h}) + "\n")
        sys.stdout.flush()


# ---------------------------------------------------------------- C02

def cuts_for(rng, spec):
    mt = spec.get("max_time", 1.0)
    t0 = spec.get("initial_time") or 0
    out = set()
    for _ in range(rng.choice([1, 2, 4, 12])):
        r = rng.random()
        if r < 0.5:
            out.add(round(t0 + 0.05 * rng.randrange(0, int((mt - t0) / 0.05) + 1), 4))   # the usual instants of rules
        elif r < 0.7:
            out.add(round(t0 + 0.05 * rng.randrange(0, int((mt - t0) / 0.05) + 1) + rng.choice([1e-9, -1e-9, 1e-4, -1e-4]), 10))
        else:
            out.add(t0 + rng.random() * (mt - t0))
    return sorted(x for x in out if t0 < x < mt)


def variant(rng, spec):
    """One other way to drive it."""
    kind = rng.choice(["slices", "slices", "slices", "step", "steps", "mix", "mix", "rerun", "silent", "realtime", "hash", "hash"])
    s = {"kind": kind}
    if kind == "slices":
        s["cuts"] = cuts_for(rng, spec)
        s["mode"] = "slices"
    elif kind in ("step", "steps", "mix"):
        s["mode"] = kind
        s["seed"] = rng.randrange(10 ** 6)
    elif kind == "rerun":
        s["mode"] = "rerun"
        s["times"] = rng.choice([1, 2, 3])
    elif kind == "silent":
        s["mode"] = rng.choice(["run", "run", "mix"])
        s["trace"] = False
    elif kind == "realtime":
        s["mode"] = "run"
        s["realtime"] = True
        s["clock"] = {"seed": rng.randrange(10 ** 6), "late": 0.3, "late_max": 0.01}
    elif kind == "hash":
        s["mode"] = rng.choice(["run", "run", "mix"])
        s["hashseed"] = rng.choice([11, 47, 1001])
    if rng.random() < 0.2:
        s["trace"] = not s.get("trace", True)
    if rng.random() < 0.1:
        s["gui"] = True
    return s


DRIVE_KEYS = ("mode", "cuts", "seed", "times", "trace", "realtime", "clock", "gui")


def driven(spec, v):
    s = copy.deepcopy(spec)
    base = s.get("sessions") or [{"mode": "run"}]
    s["sessions"] = []
    for b in base:
        b = {k: x for k, x in b.items() if k in ("max_time",)}
        b.update({k: v[k] for k in DRIVE_KEYS if k in v})
        b.setdefault("mode", "run")
        s["sessions"].append(b)
    return s


class Drives:
    """C02"""
    id = "C02"
    nontrivial = ("variants compared",)
    quick, thorough = 1600, 40000
    exhaust = False
    real = ["all of pyactr", "simpy event loop, virtual and real-time", "pyparsing", "fresh Python interpreters with other string-hash seeds"]
    stubs = ["numpy.random draws (seeded)", "sys.stdout (recorded)", "host clock of real-time runs (simulated)"]
    assumptions = ["models are legal ones made by dst/gen.py", "cuts of run() and the step at which events are compared are those of simpy's virtual time"]
    technique = "seeded search: the same simulated model is driven in different ways and in different interpreters, and the recorded histories are compared"
    note = ("Exploration: holds on every simulated pair of runs of the search, each exactly repeatable from its seed. The reference is the code itself, driven in one go; "
            "trusted: the recorder, simpy's event loop.")
    rule = ("A case is a seeded model executed in one go and in several other ways: run() cut at random moments and exactly at instants of events, step(), steps(), a mixture, again after the end, "
            "without trace, in real time on a simulated clock, in another interpreter with another string-hash seed; non-trivial: histories were compared; distinct by the digest of the history and the ways of driving")
    profiles = ["general", "goals", "retrieval", "motor", "env", "vision", "mixed", "conflict", "harvest", "learn", "compile", "utility", "activation"]

    def case(self, seed, i):
        gs = "%s/%s/%s" % (self.id, seed, i)
        prof = self.profiles[i % len(self.profiles)]
        spec = gen.generate(prof, gs)
        rng = random.Random("drive/" + gs)
        if rng.random() < 0.3:
            mt = spec.get("max_time", 1.0)
            spec["sessions"] = [{"mode": "run", "max_time": round((spec.get("initial_time") or 0) + (mt - (spec.get("initial_time") or 0)) * rng.choice([0.3, 0.6, 1.0]), 4)}, {"mode": "run"}]
        n = 3 if rng.random() < 0.7 else 5
        variants = [variant(rng, spec) for _ in range(n)]
        if spec.get("sessions"):
            # the second simulation starts from where the first one ended: only ways that end it at the same moment
            variants = [v for v in variants if v["kind"] in ("slices", "realtime") or v.get("mode") == "run"]
            variants.append({"kind": "slices", "mode": "slices", "cuts": cuts_for(rng, spec)})
        return {"profile": prof, "gseed": gs, "spec": spec, "variants": variants}

    def prepare(self, case):
        for v in case["variants"]:
            if v.get("hashseed"):
                INTERPRETERS.get(v["hashseed"])

    def execute(self, case):
        res = Result()
        from . import checks
        base_spec = driven(case["spec"], {"mode": "run"})
        status, out = engine.in_child(lambda: self.base(base_spec))
        if status != "ok":
            if status == "cpu":
                res.aborted = "cpu"
                return res
            raise engine.HarnessError(out)
        base, part = out
        res.runs, res.simtime, res.counters, res.states, res.digest, res.order, res.trace = part
        if any(h["end"] == "limit" for h in base):
            res.counters["step limit"] += 1
        for n, v in enumerate(case["variants"]):
            spec = driven(case["spec"], v)
            h = INTERPRETERS.ask(v["hashseed"], spec) if v.get("hashseed") else alone(spec)
            if isinstance(h, dict):
                if h["status"] == "cpu":
                    res.counters["variant aborted"] += 1
                    continue
                raise engine.HarnessError(str(h))
            res.runs += len(h)
            res.counters["variants compared"] += 1
            res.counters["inject: driven by " + v["kind"]] += 1
            res.counters["inject: pauses"] += len(v.get("cuts", ()))
            for k, (a, b) in enumerate(zip(base, h)):
                d = differs(a, b)
                if d is None and len(base) != len(h):
                    d = ("end", "%d simulations instead of %d" % (len(h), len(base)))
                if d is not None:
                    res.violations.append({"kind": d[0], "message": "driven by %s%s: %s%s" % (
                        v["kind"], "" if v["kind"] != "hash" else " seed %s" % v["hashseed"], d[1], " (simulation %d of the model)" % (k + 1) if len(base) > 1 else ""), "variant": n,
                        "events": ["(%s, %s, %s)" % tuple(e[:3]) for e in a["events"][-8:]]})
                    break
            res.digest = digest((res.digest, n, [[e[:4] for e in x["events"]] for x in h]))
        return res

    @staticmethod
    def base(spec):
        from . import checks
        r = run.run_spec(spec)
        res = Result()
        for rec in r.recs:
            T = Timeline(spec, rec, r.built.model)
            checks.observe(res, T, rec)
        return history(r), (res.runs, res.simtime, res.counters, res.states, res.digest, res.order, res.trace)

    def simpler(self, case):
        if len(case["variants"]) > 1:
            for v in case["variants"]:
                c = copy.deepcopy(case)
                c["variants"] = [copy.deepcopy(v)]
                yield c
        for s in shrinker.variants(case["spec"]):
            if shrinker.legal(s):
                c = copy.deepcopy({k: v for k, v in case.items() if k != "spec"})
                c["spec"] = s
                yield c
        for n, v in enumerate(case["variants"]):
            for i in range(len(v.get("cuts", ()))):
                c = copy.deepcopy(case)
                c["variants"][n]["cuts"].pop(i)
                if c["variants"][n]["cuts"]:
                    yield c
            if v.get("mode") == "mix":
                for m in ("step", "run"):
                    c = copy.deepcopy(case)
                    c["variants"][n]["mode"] = m
                    yield c


# ---------------------------------------------------------------- C16

def renamed(spec, prefix):
    """The same model with chunk types of its own."""
    types = [t for t in spec["types"] if t != "nm"]
    m = {t: prefix + t for t in types}
    s = copy.deepcopy(spec)

    def walk(x):
        if isinstance(x, dict):
            return {k: (m.get(v, v) if k == "type" and isinstance(v, str) else walk(v)) for k, v in x.items()}
        if isinstance(x, list):
            if len(x) >= 3 and isinstance(x[0], str) and isinstance(x[2], str) and x[2] in m:
                return x[:2] + [m[x[2]]] + [walk(v) for v in x[3:]]
            return [walk(v) for v in x]
        return x
    s = walk(s)
    s["types"] = {m.get(t, t): v for t, v in spec["types"].items()}
    return s


class Router:
    """Standard output of a process with several simulations."""

    def write(self, text):
        if seam.CURRENT is not None:
            seam.CURRENT.out.append((seam.CURRENT.i, text))
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


class World:
    """Several models in one process."""

    def __init__(self, specs):
        self.specs = specs
        self.runs = [run.Run(s) for s in specs]
        self.sims = [None] * len(specs)
        self.over = [False] * len(specs)

    def begin(self, i):
        s = self.specs[i]
        rng = dict(s.get("rng") or {})
        rng["seed"] = rng.get("seed", 0)
        rec = seam.Recorder(seam.Draws(rng), None, limit=s.get("limit", 6000))
        rec.session, rec.exc, rec.end = {"mode": "run"}, None, None
        self.runs[i].recs.append(rec)
        return rec

    def guarded(self, i, fn):
        import simpy
        rec = self.runs[i].recs[0]
        try:
            fn()
        except simpy.core.EmptySchedule:
            self.over[i] = True
        except seam.StepLimit as e:
            self.over[i], rec.end, rec.exc = True, run.END_LIMIT, {"type": "StepLimit", "msg": str(e)}
        except (KeyboardInterrupt, SystemExit, seam.WallStop):
            raise
        except BaseException as e:
            self.over[i], rec.end, rec.exc = True, run.END_ERROR, run.describe(e)

    def do(self, op):
        kind, i = op[0], op[1]
        if i >= len(self.specs) or self.over[i]:
            return
        r = self.runs[i]
        if kind == "build":
            if r.built is None:
                r.built = specmod.build_model(self.specs[i])
        elif kind == "start":
            self.do(["build", i])
            if self.sims[i] is None:
                rec = self.begin(i)

                def go():
                    self.sims[i] = specmod.start(self.specs[i], r.built, rec)
                    rec.now0 = float(self.sims[i].show_time())
                self.guarded(i, go)
        else:
            self.do(["start", i])
            sim, mt = self.sims[i], self.specs[i].get("max_time", 1.0)
            if sim is None or self.over[i]:
                return
            if kind == "step":
                for _ in range(op[2]):
                    if self.over[i] or sim.show_time() >= mt:
                        break
                    self.guarded(i, sim.step)
            elif kind == "run":
                t = sim.show_time() + op[2]
                if t < mt:
                    self.guarded(i, lambda: sim.run(t))
            elif kind == "finish":
                if sim.show_time() < mt:
                    self.guarded(i, lambda: sim.run(mt))

    def histories(self, which):
        out = []
        for i in which:
            rec = self.runs[i].recs[0]
            if rec.end is None:
                rec.end = run.END_TIME
            rec.check_mutation()
            rec.rest = run.at_rest(rec.env)
            out.append(history(self.runs[i])[0])
        return out


def side_by_side(specs, ops, bystanders):
    import io
    import warnings

    import numpy as np
    seam.install()
    random.seed(0)
    np.random.seed(0)
    prev = sys.stdout, sys.stderr
    w = World(specs)
    try:
        sys.stdout, sys.stderr = Router(), io.StringIO()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for op in ops:
                w.do(op)
            which = [i for i in range(len(specs)) if i not in bystanders]
            for i in which:
                w.do(["finish", i])
    finally:
        sys.stdout, sys.stderr = prev
    return w.histories(which)


def schedule(rng, n, bystanders):
    """A seeded interleaving of building, starting and stepping n models."""
    ops = []
    style = rng.choice(["bursts", "fine", "fine", "staggered", "slices"])
    todo = list(range(n))
    rng.shuffle(todo)
    ready = []
    for i in todo[:1 if style == "staggered" else rng.randint(1, n)]:
        ops.append([rng.choice(["build", "start", "start"]), i])
        ready.append(i)
    for _ in range(rng.choice([15, 40, 90])):
        left = [i for i in todo if i not in ready]
        if left and rng.random() < 0.12:
            i = rng.choice(left)
            ops.append([rng.choice(["build", "start"]), i])
            ready.append(i)
            continue
        i = rng.choice(ready)
        if i in bystanders:
            ops.append(["start", i])
            continue
        r = rng.random()
        if style == "slices" or r < 0.1:
            ops.append(["run", i, rng.choice([0.001, 0.05, 0.1, 0.033, 0.2])])
        elif style == "bursts":
            ops.append(["step", i, rng.randint(1, 12)])
        else:
            ops.append(["step", i, rng.choice([1, 1, 1, 2, 3])])
    return ops


class Interleaved:
    """C16"""
    id = "C16"
    nontrivial = ("simulations compared",)
    quick, thorough = 1600, 40000
    exhaust = False
    real = Drives.real[:3]
    stubs = Drives.stubs[:2]
    assumptions = ["models are legal ones made by dst/gen.py; chunks and chunk types of the same name are defined in the same way in all models of a process (pyactr keeps names for the whole process)",
                   "steps of different simulations are interleaved at the granularity of step() and run()"]
    technique = "seeded search: several simulated models are built, prepared and stepped in seeded interleavings in one process; each history is compared with that of the model alone in a process of its own"
    note = Drives.note
    rule = ("A case is two to four seeded models (also twins of one model with other draws, and bystanders that are only built and prepared) and a seeded schedule of building, preparing, stepping and running them in one process; "
            "non-trivial: histories were compared; distinct by the digest of the histories")
    profiles = ["general", "retrieval", "motor", "env", "vision", "mixed", "goals", "activation", "learn", "utility", "conflict", "compile", "motor"]

    def case(self, seed, i):
        gs = "%s/%s/%s" % (self.id, seed, i)
        rng = random.Random("interleave/" + gs)
        n = rng.choice([2, 2, 2, 3, 4])
        specs = []
        for k in range(n):
            if k and rng.random() < 0.3:
                s = copy.deepcopy(rng.choice(specs))
                s["rng"] = dict(s.get("rng") or {}, seed=rng.randrange(10 ** 6))
                if rng.random() < 0.5:
                    s["params"]["motor_prepared"] = not s["params"].get("motor_prepared", False)
            else:
                s = gen.generate(self.profiles[(i + 5 * k) % len(self.profiles)], "%s/%d" % (gs, k))
                names = {t: v for x in specs for t, v in x["types"].items()}
                if any(names.get(t, v) != v for t, v in s["types"].items()) or rng.random() < 0.3:
                    s = renamed(s, "m%d" % k)
            specs.append(s)
        bystanders = [k for k in range(1, n) if rng.random() < 0.2]
        return {"gseed": gs, "specs": specs, "bystanders": bystanders, "ops": schedule(rng, n, bystanders)}

    def execute(self, case):
        res = Result()
        which = [i for i in range(len(case["specs"])) if i not in case["bystanders"]]
        singles = []
        for i in which:
            spec = driven(case["specs"][i], {"mode": "run"})
            status, out = engine.in_child(lambda: Drives.base(spec))
            if status == "cpu":
                res.aborted = "cpu"
                return res
            if status != "ok":
                raise engine.HarnessError(out)
            h, part = out
            singles.append(h[0])
            res.simtime += part[1]
            res.counters.update(part[2])
            res.states |= part[3]
            res.digest = digest((res.digest, part[4]))
            res.order = digest((res.order, part[5]))
            res.trace = part[6]
        status, together = engine.in_child(lambda: side_by_side(case["specs"], case["ops"], case["bystanders"]), cpu=2 * engine.CPU_LIMIT)
        if status == "cpu":
            res.aborted = "cpu"
            return res
        if status != "ok":
            raise engine.HarnessError(together)
        res.runs = len(which)
        res.counters["simulations compared"] += len(which)
        res.counters["inject: switches between simulations"] += sum(1 for a, b in zip(case["ops"], case["ops"][1:]) if a[1] != b[1])
        res.counters["inject: model built or prepared while others run"] += sum(1 for k, o in enumerate(case["ops"]) if k and o[0] in ("build", "start"))
        res.counters["inject: bystanders"] += len(case["bystanders"])
        for i, a, b in zip(which, singles, together):
            d = differs(a, b)
            if d is not None:
                res.violations.append({"kind": d[0], "message": "model %d of %d, next to the others: %s" % (i, len(case["specs"]), d[1]),
                                       "events": ["(%s, %s, %s)" % tuple(e[:3]) for e in a["events"][-8:]]})
        res.digest = digest((res.digest, [[e[:4] for e in x["events"]] for x in together]))
        return res

    def simpler(self, case):
        n = len(case["specs"])
        for i in range(n):
            if n > 1:
                c = copy.deepcopy(case)
                c["specs"].pop(i)
                c["ops"] = [[o[0], o[1] - (o[1] > i)] + o[2:] for o in c["ops"] if o[1] != i]
                c["bystanders"] = [b - (b > i) for b in c["bystanders"] if b != i]
                yield c
        ops = case["ops"]
        size = max(1, len(ops) // 2)
        while size >= 1 and ops:
            for a in range(0, len(ops), size):
                c = copy.deepcopy(case)
                c["ops"] = ops[:a] + ops[a + size:]
                yield c
            if size == 1:
                break
            size //= 2
        for i in range(n):
            for s in shrinker.variants(case["specs"][i]):
                if shrinker.legal(s):
                    c = copy.deepcopy(case)
                    c["specs"][i] = s
                    yield c


# ---------------------------------------------------------------- C17

def clock_for(rng):
    c = {"seed": rng.randrange(10 ** 6), "base": rng.choice([0.0, 1000.0, 98765.4321])}
    kind = rng.choice(["exact", "late", "early", "coarse", "stalls", "everything", "everything"])
    if kind in ("late", "everything"):
        c["late"], c["late_max"] = rng.choice([0.2, 0.8]), rng.choice([0.0005, 0.02, 0.2])
    if kind in ("early", "everything"):
        c["early"] = rng.choice([0.2, 0.6])
    if kind == "coarse" or kind == "everything" and rng.random() < 0.5:
        c["tick"] = rng.choice([0.001, 0.0156, 0.05])
    if kind in ("stalls", "everything"):
        c["stall"], c["stall_max"] = rng.choice([0.02, 0.3]), rng.choice([0.01, 0.3, 0.8])
    return c


class RealTime:
    """C17"""
    id = "C17"
    nontrivial = ("real-time runs",)
    quick, thorough = 2400, 60000
    exhaust = False
    real = ["all of pyactr", "simpy event loop, virtual and real-time (RealtimeEnvironment)", "pyparsing"]
    stubs = ["host clock and sleep (simulated, with faults)", "numpy.random draws (seeded)", "sys.stdout (recorded)"]
    assumptions = ["the host never falls a whole second behind (simpy then stops the simulation)", "computation takes no time except for the stalls injected"]
    technique = "seeded search: simulated models on a simulated host clock with faults, against the virtual-time run of the same model and the clock's own record"
    note = Drives.note
    rule = ("A case is a seeded model run in virtual time and in real time on a simulated host clock (exact, late and early wake-ups, coarse ticks, stalls, another origin), in one go or in slices; "
            "non-trivial: events took place in real time; distinct by the digest of the history and of the times on the wall")
    profiles = ["general", "motor", "env", "vision", "mixed", "retrieval", "goals", "conflict", "harvest"]

    def case(self, seed, i):
        gs = "%s/%s/%s" % (self.id, seed, i)
        rng = random.Random("clock/" + gs)
        spec = gen.generate(self.profiles[i % len(self.profiles)], gs)
        v = {"kind": "realtime", "mode": "run", "realtime": True, "clock": clock_for(rng)}
        r = rng.random()
        if r < 0.3:
            v["mode"], v["cuts"] = "slices", cuts_for(rng, spec)
        elif r < 0.5:
            v["mode"], v["seed"] = rng.choice(["step", "mix"]), rng.randrange(10 ** 6)
        if rng.random() < 0.2:
            v["trace"] = False
        if rng.random() < 0.35:
            v["gui"] = True      # a window is asked for, but there is none
        return {"gseed": gs, "spec": spec, "variants": [v]}

    def execute(self, case):
        res = Result()
        v = case["variants"][0]
        base_spec = driven(case["spec"], {"mode": "run"})
        status, out = engine.in_child(lambda: Drives.base(base_spec))
        if status == "ok":
            base, part = out
            res.runs, res.simtime, res.counters, res.states, res.digest, res.order, res.trace = part
            spec = driven(case["spec"], v)
            status, out = engine.in_child(lambda: self.real_run(spec))
        if status == "cpu":
            res.aborted = "cpu"
            return res
        if status != "ok":
            raise engine.HarnessError(out)
        h, problems, counts, n = out
        res.runs += 1
        if n:
            res.counters["real-time runs"] += 1
        for k, x in counts.items():
            res.counters[("inject: " if k != "sleep" else "") + "host clock " + k] += x
        res.violations += problems
        d = differs(base[0], h[0])
        if d is not None:
            res.violations.append({"kind": d[0], "message": "in real time: " + d[1], "events": ["(%s, %s, %s)" % tuple(e[:3]) for e in base[0]["events"][-8:]]})
        res.digest = digest((res.digest, [e[:4] for e in h[0]["events"]], n))
        return res

    @staticmethod
    def real_run(spec):
        r = run.run_spec(spec)
        rec = r.recs[0]
        c = rec.clock
        problems = []
        n = 0
        ready = rec.wall0          # when the host was ready to go on
        for k, x in enumerate(rec.steps):
            due = rec.wall0 + (x.t - rec.t0)
            if x.ev is not None:
                n += 1
                what = "(%s, %s, %s)" % x.ev
                if x.wall < due - c.tick - 1e-6:
                    problems.append({"kind": "early", "message": "%s takes place %.4f s before its time on the wall clock" % (what, due - x.wall)})
                latest = max(due, ready) + (c.late_max if c.late and due > ready - c.tick - 1e-6 else 0) + 2 * c.tick + 1e-6
                if x.wall > latest:
                    problems.append({"kind": "late", "message": "%s takes place %.4f s after its time on the wall clock, although the host was ready %s" % (
                        what, x.wall - due, "before" if ready <= due else "%.4f s earlier" % (x.wall - ready))})
                if problems:
                    break
            ready = x.ready if x.ready is not None else x.wall
        return history(r), problems, dict(c.counts), n


# ---------------------------------------------------------------- C18

class GuiStdout:
    def __init__(self, rec):
        self.rec = rec

    def write(self, text):
        from . import gui
        self.rec.out.append((self.rec.i, text))
        if text.strip():
            gui.SCHED.log.append(("print", text, gui.SCHED.sleep_total))
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


class GuiRecorder(seam.Recorder):
    def before(self, env):
        from . import gui
        gui.SCHED.log.append(("step",))
        gui.SCHED.point("step")
        seam.Recorder.before(self, env)

    def after(self, env):
        from . import gui
        seam.Recorder.after(self, env)
        gui.SCHED.log.append(("stepped", self.i))
        gui.SCHED.point("stepped")


def gui_run(spec, cfg):
    import io
    import warnings

    import numpy as np
    from . import gui
    seam.install()
    random.seed(0)
    np.random.seed(0)
    r = run.Run(spec)
    prev = sys.stdout, sys.stderr
    rng = dict(spec.get("rng") or {})
    rng["seed"] = rng.get("seed", 0)
    rec = GuiRecorder(seam.Draws(rng), None, limit=spec.get("limit", 6000))
    rec.session, rec.exc, rec.end = {"mode": "gui", "max_time": spec.get("max_time", 1.0), "trace": cfg.get("trace", True)}, None, None
    r.recs.append(rec)
    out = {}
    sched = gui.Scheduler(cfg)
    try:
        sys.stderr = io.StringIO()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r.built = specmod.build_model(spec)
            gui.SCHED = sched
            sys.stdout = GuiStdout(rec)
            sim = specmod.start(spec, r.built, rec, gui=True, trace=cfg.get("trace", True), realtime=cfg.get("realtime", False))
            rec.now0 = float(sim.show_time())
            if sched.line:
                sys.settrace(sched.tracer)
            try:
                sim.run(spec.get("max_time", 1.0))
                out["main"] = "returned"
            except gui.TooLong:
                out["main"] = "too long"
            except SystemExit as e:
                out["main"] = "exit"
            except BaseException as e:
                out["main"] = "error"
                out["main_exc"] = run.describe(e)
            finally:
                sys.settrace(None)
            n = sched.points
            out["ended"], out["steps_after"] = sched.finish()
    finally:
        sys.stdout, sys.stderr = prev
        gui.SCHED = None
    exc = [t.exc for t in sched.tasks if t.exc is not None]
    rec.rest = run.at_rest(rec.env)
    if exc and isinstance(exc[0], seam.StepLimit):
        rec.end = run.END_LIMIT
    elif exc:
        rec.end, rec.exc = run.END_ERROR, run.describe(exc[0])
    else:
        rec.end = run.END_REST if rec.rest else "closed"
    # what the window had to show, in the order of the steps
    shown, focus = [], []
    ps, pf = None, None
    for x in rec.steps:
        st = x.s.stim
        if st is not None and st != ps:
            ps = st
            shown.append((x.i, tuple(sorted((str(e.get("text", "")), (float(e["position"][0]), float(e["position"][1]))) for e in st.values()))))
        f = x.s.focus
        if f is not None and f != pf:
            pf = f
            focus.append((x.i, (float(f[0]), float(f[1]))))
    out["shown"], out["focus"], out["log"] = shown, focus, sched.log
    out["points"], out["switches"], out["preempted"], out["starved"], out["polls"] = sched.points, sched.switches, sched.preempted, sched.starved, sched.polls
    out["limit"] = sched.points > sched.limit
    return history(r), out


def read(line):
    try:
        return ast.literal_eval(re.sub(r"np\.float64\(([^()]*)\)", r"\1", line))
    except (SyntaxError, ValueError):
        return line


def gui_problems(spec, cfg, base, h, out):
    """Violations as [(kind, text)]."""
    a, b = base[0], h[0]
    log = out["log"]
    if not any(x[0] == "window" for x in log):
        if b["end"] == "error" and not any(x[0] == "started" for x in log):
            return [("error", "the front end fails at its start: %s" % (out.get("main_exc") or b["exc"]))]
        return [("window", "no window is opened")]
    closed = any(x[0] == "closed by the user" for x in log)
    if out["main"] == "error":
        return [("error", "the window thread fails: %s" % out["main_exc"]["msg"])]
    failed = [x for x in log if x[0] == "callback failed"]
    if failed:
        return [("error", "the window fails to show something: %s: %s" % failed[0][1:])]
    if any(x[0] == "window stays" for x in log):
        return [("hang", "the simulation is over, but the window loop does not end")]
    if out["limit"] or "limit" in (a["end"], b["end"]):
        if a["rest"] and not closed:
            return [("hang", "neither the simulation nor the window comes to an end")]
        return []
    if not out["ended"] or out["steps_after"] > 2:
        return [("thread", "the window is closed, but the simulation thread goes on (%d more steps)" % out["steps_after"])]
    problems = []
    # the same history as without the window
    done = a["rest"] or a["end"] == "error"
    ea = a["events"] if done else [x for x in a["events"] if x[3] < a["max"] - GROUP]
    eb = b["events"]
    full = done and not closed
    n = max(len(ea), len(eb)) if full else min(len(ea), len(eb))
    for i in range(n):
        x = ea[i] if i < len(ea) else None
        y = eb[i] if i < len(eb) else None
        if x is None or y is None or x[:3] != y[:3] or x[4] != y[4]:
            if x and y and x[:3] == y[:3]:
                problems.append(("state", "with the window, after event %d, %s, the state is not the same" % (i, show(x))))
            else:
                problems.append(("events", "with the window, event %d is %s instead of %s" % (i, show(y), show(x))))
            return problems
    if full and a["end"] == "error" and (b["exc"] or [""])[0] != a["exc"][0]:
        problems.append(("end", "with the window it ends with %s instead of %s" % (b["exc"], a["exc"])))
    # the trace
    if cfg.get("trace", True):
        printed = [x for x in log if x[0] == "print" and x[1].startswith("(") and isinstance(read(x[1].strip()), tuple)]
        want = [x for x in eb if x[1] != "ENVIRONMENT"]
        got = [read(x[1].strip()) for x in printed]
        exp = [(e[0], e[1], e[2]) for e in want]
        slack = 1 if closed or b["end"] == "error" else 0
        if got != exp[:len(got)] or len(got) < len(exp) - slack:
            for i in range(max(len(got), len(exp))):
                g = got[i] if i < len(got) else "nothing"
                w = exp[i] if i < len(exp) else "nothing"
                if g != w:
                    problems.append(("trace", "line %d of the trace is %s instead of %s" % (i, g, w)))
                    break
        if cfg.get("realtime"):
            t0 = float(spec.get("initial_time") or 0)
            for x, e in zip(printed, want):
                if abs(x[2] - (e[0] - t0)) > 1e-3:
                    problems.append(("time", "%s is reported %.4f s after the start, not %.4f" % (show(e), x[2], e[0] - t0)))
                    break
    # the window
    shown, focus = [x[1] for x in out["shown"]], [x[1] for x in out["focus"]]
    blank = ()
    for what, seq, pick in (("screen", shown, lambda c: c[0]), ("focus", focus, lambda c: tuple(((o[0] + o[2]) / 2, (o[1] + o[3]) / 2) for o in c[1]))):
        at = 0       # how many have been drawn
        seen = -1    # the one in the window
        good = True
        for x in log:
            if x[0] == "canvas":
                c = pick((x[1], x[2]))
                if what == "focus":
                    c = c[0] if len(c) == 1 else None
                if at < len(seq) and c == seq[at]:
                    seen, at = at, at + 1
                elif at + 1 < len(seq) and c == seq[at + 1] and False:
                    pass
            elif x[0] == "polled" and good:
                c = pick(x[2][0]) if x[2] else blank
                if what == "focus":
                    if len(c) > 1:
                        problems.append(("draw", "the window shows %d positions of the focus at once" % len(c)))
                        good = False
                        continue
                    c = c[0] if c else None
                    ok = c is None and seen < 0 or seen >= 0 and c == seq[seen]
                else:
                    ok = c == blank and seen < 0 or seen >= 0 and c == seq[seen]
                if not ok:
                    problems.append(("draw", "after poll %d the window shows %s %s, which is not %s" % (
                        x[1], what, c, "the one that comes next, %s" % (seq[at],) if at < len(seq) else "the last one, %s" % (seq[-1] if seq else None,))))
                    good = False
        if good and not closed and b["end"] != "error" and at < len(seq):
            problems.append(("draw", "the run is over and %s %d of %d, %s, was never drawn" % (what, at + 1, len(seq), seq[at])))
    return problems


class Window:
    """C18"""
    id = "C18"
    nontrivial = ("screens drawn",)
    quick, thorough = 1600, 40000
    exhaust = False
    real = ["all of pyactr with its GUI front end (worker thread, queue, window code)", "Python threads (real ones, one at a time)", "queue.Queue", "simpy event loop"]
    stubs = ["tkinter (simulated window: event loop, timers, canvas with Tk's checks of options)", "thread scheduling (seeded baton, also between lines of the front end)", "time.sleep (simulated)",
             "numpy.random draws (seeded)", "sys.stdout (recorded)"]
    assumptions = ["preemption is explored between operations on the queue, the window and the simulation and between lines of pyactr/simulation.py", "text items take the options that Tk's canvas text items take"]
    technique = "seeded search over thread interleavings of the real front end in a simulated window system, against the run without a window and the list of screens shown"
    note = Drives.note
    rule = ("A case is a seeded model with an environment, run without and with the window under a seeded schedule of the two threads (slow window, slow simulation, starvation, preemption between lines), "
            "with faults: the user closes the window, the simulation fails; non-trivial: screens were drawn; distinct by the digest of everything that happened in both threads")
    profiles = ["env", "vision", "mixed", "env", "motor"]

    def case(self, seed, i):
        gs = "%s/%s/%s" % (self.id, seed, i)
        rng = random.Random("window/" + gs)
        for k in range(20):
            spec = gen.generate(self.profiles[(i + k) % len(self.profiles)], gs + "/%d" % k)
            if spec.get("env"):
                break
        stims = spec["env"]["stimuli"]
        for scr in stims:
            for name in scr:
                scr[name].setdefault("text", "")     # the window asks for one
                if rng.random() < 0.2:
                    scr[name]["fill"] = rng.choice(["red", "blue", "green"])
                if rng.random() < 0.2:
                    scr[name]["color"] = rng.choice(["red", "blue", "green"])
        if len(stims) > 1 and rng.random() < 0.2:
            stims[rng.randrange(len(stims))] = {}
        if rng.random() < 0.12:
            # a rule that cannot be carried out
            rule = rng.choice(spec["rules"])
            rule["rhs"] = [["=", c[1], c[2], {"st": {"var": "nosuchvariable"}}] for c in rule["lhs"] if c[0] == "=" and c[1] in ("g", "t1", "t2")][:1] or rule["rhs"]
        cfg = {"seed": rng.randrange(10 ** 6), "window": rng.choice([0.02, 0.2, 0.5, 0.9]), "line": rng.choice([0, 0.02, 0.1, 0.3]), "starve": rng.choice([0, 0, 0.01])}
        if rng.random() < 0.25:
            cfg["realtime"] = True
        if rng.random() < 0.2:
            cfg["trace"] = False
        if rng.random() < 0.15:
            cfg["close"] = rng.choice([0, 1, 2, 5, 12])
        return {"gseed": gs, "spec": spec, "cfg": cfg}

    def execute(self, case):
        res = Result()
        base_spec = driven(case["spec"], {"mode": "run"})
        status, out = engine.in_child(lambda: Drives.base(base_spec))
        if status == "ok":
            base, part = out
            res.runs, res.simtime, res.counters, res.states, res.digest, res.order, res.trace = part
            cfg = dict(case["cfg"])
            if not base[0]["rest"] and base[0]["end"] != "error" and cfg.get("close") is None:
                cfg["close"] = 30      # it would go on for ever
            status, out = engine.in_child(lambda: gui_run(case["spec"], cfg), wall=120)
        if status in ("cpu", "wall"):
            res.aborted = status
            return res
        if status != "ok":
            raise engine.HarnessError(out)
        h, o = out
        res.runs += 1
        res.counters["screens drawn"] += sum(1 for x in o["log"] if x[0] == "polled") and len(o["shown"])
        res.counters["screens shown"] += len(o["shown"])
        res.counters["focus positions"] += len(o["focus"])
        res.counters["polls"] += o["polls"]
        res.counters["inject: thread switches"] += o["switches"]
        res.counters["inject: preempted between lines"] += o["preempted"]
        res.counters["inject: thread starved"] += o["starved"]
        res.counters["inject: window closed by the user"] += any(x[0] == "closed by the user" for x in o["log"])
        res.counters["inject: simulation fails"] += h[0]["end"] == "error"
        res.counters["inject: real-time"] += bool(cfg.get("realtime"))
        res.counters["step or point limit"] += bool(o["limit"] or "limit" in (base[0]["end"], h[0]["end"]))
        for kind, msg in gui_problems(case["spec"], cfg, base, h, o):
            res.violations.append({"kind": kind, "message": msg, "events": ["%s" % (x,) for x in o["log"] if x[0] in ("poll", "canvas", "print", "ended", "closed by the user")][-8:]})
        res.digest = digest((res.digest, o["log"]))
        res.order = digest([x[0] for x in o["log"]])
        return res

    def simpler(self, case):
        for s in shrinker.variants(case["spec"]):
            if shrinker.legal(s) and s.get("env"):
                c = copy.deepcopy(case)
                c["spec"] = s
                yield c
        for k in ("line", "starve", "realtime", "close"):
            if case["cfg"].get(k):
                c = copy.deepcopy(case)
                c["cfg"].pop(k) if k in ("realtime", "close") else c["cfg"].__setitem__(k, 0)
                yield c
