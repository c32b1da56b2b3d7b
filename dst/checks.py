"""The checks, one per property."""

import collections
import copy
import random

from . import engine, gen, modules, multi, oracles, run, shrinker, timeline
from .engine import Result, digest
from .timeline import GROUP

REAL = ["all of pyactr (simulation, productions, buffers, goals, declarative, vision, motor, environment, chunks, utilities, model), unmodified",
        "simpy event loop (virtual time)", "pyparsing (string rules)"]
STUBS = ["numpy.random draws (seeded, with extreme and repeated values)", "sys.stdout (recorded)"]
ASSUME = ["models are legal ones made by dst/gen.py; slots hold strings and chunks", "a simulation step (one simpy event) is the unit of interleaving"]


def stats(T, rec):
    """What a run reached, for coverage: the situations the properties are about."""
    c = collections.Counter()
    c["events"] = len(T.events)
    c["steps"] = len(T.steps)
    for y in T.cycles:
        c["cycles"] += 1
        if y.fired:
            c["rules fired"] += 1
            r = T.rules.get(y.rule)
            if r is not None:
                for a in r.actions:
                    c["action %s %s" % (a[0], T.kind_of(a[1]))] += 1
                if T.p["strict_harvesting"]:
                    c["fired under strict harvesting"] += 1
                if r.reward is not None and T.p["utility_learning"]:
                    c["rewards"] += 1
        elif y.fired is False:
            c["rules stopped"] += 1
        if y.none is not None:
            c["no rule found"] += 1
        if y.created:
            c["rules compiled"] += len(y.created)
    open_ = {}
    for e in T.events:
        k = T.kind_of(e.proc)
        if k == "retrieval":
            if e.action == "START RETRIEVAL":
                c["retrievals"] += 1
                if open_.get(e.proc):
                    c["inject: request superseded (retrieval)"] += 1
                open_[e.proc] = True
            elif e.action.startswith("RETRIEVED"):
                open_[e.proc] = False
                c["retrievals failed" if e.action.endswith("None") else "retrievals succeeded"] += 1
        elif e.proc == "manual":
            c["manual " + e.action.split(":")[0]] += 1
        elif k == "location":
            c["location failed" if e.action.endswith("None") else "location events"] += 1
        elif k == "visual":
            c["visual " + e.action.split(":")[0].split("TO")[0]] += 1
        elif k == "goal":
            c["goal " + e.action.split(":")[0]] += 1
        elif e.proc == "ENVIRONMENT":
            c["environment events"] += 1
    c["inject: extreme draw"] += rec.draws.extremes
    c["inject: repeated draw"] += rec.draws.ties
    c["draws"] += len(rec.draws.log)
    groups = collections.defaultdict(set)
    for e in T.events:
        groups[T.group[e.k]].add(e.proc)
    c["inject: coincidence (events of 2 or more modules at one instant)"] += sum(1 for g in groups.values() if len(g) > 1)
    if rec.clock:
        for k, n in rec.clock.counts.items():
            c["inject: host clock " + k] += n
    if T.spec.get("env"):
        c["stimulus changes"] += sum(1 for i in range(1, len(T.steps)) if T.steps[i].s.stim is not T.steps[i - 1].s.stim)
        marks = sorted({round(sum(T.spec["env"]["times"][:n + 1]), 4) for n in range(len(T.spec["env"]["times"]))})
        for e in T.events:
            if e.action.startswith("KEY PRESSED"):
                if any(abs(e.stamp - m) < 1e-3 for m in marks):
                    c["inject: key press at a scheduled stimulus end"] += 1
    if rec.end == "error":
        c["ended with an error"] += 1
    if rec.rest:
        c["came to rest"] += 1
    return {k: v for k, v in c.items() if v}


def abstract(s):
    return digest((tuple(sorted((b, len(x)) for b, x in s.bufs.items())), tuple(sorted(s.states.items()))))


def observe(result, T, rec):
    """Digests and counters of one simulation."""
    result.runs += 1
    result.simtime += (T.steps[-1].t - rec.now0) if T.steps else 0.0
    result.counters.update(stats(T, rec))
    ids = set()
    for x in T.steps:
        if x.s is not None and id(x.s) not in ids:
            ids.add(id(x.s))
            result.states.add(abstract(x.s))
    ev = [(e.stamp, e.proc, e.action) for e in T.events]
    final = T.steps[-1].s.key() if T.steps else None
    result.digest = digest((result.digest, ev, len(T.steps), repr(final[:4]) if final else None, rec.end, rec.exc and rec.exc["type"]))
    result.order = digest((result.order, [(p, a) for _, p, a in ev]))
    result.trace = ["(%s, %s, %s)" % x for x in ev][:400]


class Check:
    nontrivial = ()
    quick, thorough = 2400, 60000
    exhaust = False
    real, stubs, assumptions = REAL, STUBS, ASSUME
    technique = "seeded search over simulated models, draws, schedules and coincidences, judged against an executable reference on the recorded history"
    note = ("Exploration: holds on every simulated run of the search (thousands per quick run), each exactly repeatable from its seed; "
            "nothing is claimed for models, schedules and draws that were not generated. Trusted: the reference semantics in dst/ref.py and the oracle, the recorder, simpy's event loop.")

    def simpler(self, case):
        for s in shrinker.variants(case["spec"]):
            if shrinker.legal(s):
                c = copy.deepcopy({k: v for k, v in case.items() if k != "spec"})
                c["spec"] = s
                yield c


class Single(Check):
    """One model, simulated; the oracles judge the recording."""

    def __init__(self, id, title, profiles, oracle, nontrivial, rule, quick=2400, thorough=60000):
        self.id, self.title, self.profiles, self.oracle = id, title, profiles, oracle
        self.nontrivial, self.quick, self.thorough = nontrivial, quick, thorough
        self.rule = ("A case is a seeded model (rules, memory, parameters, environment schedule, draws with extremes and repeats; profiles %s) simulated to its end under the recorder; "
                     "non-trivial: %s; distinct by the digest of all events, states and contents" % (", ".join(sorted(set(profiles))), rule))

    def case(self, seed, i):
        prof = self.profiles[i % len(self.profiles)]
        spec = gen.generate(prof, "%s/%s/%s" % (self.id, seed, i))
        return {"profile": prof, "gseed": "%s/%s/%s" % (self.id, seed, i), "spec": spec}

    def execute(self, case):
        res = Result()
        r = run.run_spec(case["spec"])
        for rec in r.recs:
            T = timeline.Timeline(case["spec"], rec, r.built.model)
            observe(res, T, rec)
            for v in self.oracle(T):
                res.violations.append(record(v))
        return res


def record(v):
    d = {"kind": v.kind, "message": v.msg, "step": v.k, "time": v.t, "events": v.context}
    if v.extra and isinstance(v.extra, dict):
        d["facts"] = v.extra
    return d


def both(*fs):
    def f(T):
        for g in fs:
            yield from g(T)
    return f


ALL = ["general", "goals", "retrieval", "motor", "env", "vision", "mixed", "conflict", "harvest"]

CHECKS = {}


def add(c):
    CHECKS[c.id] = c


add(Single("C01", "time", ALL + ["activation", "utility", "compile"], oracles.c01, ["events"], "events were reported"))
add(multi.Drives())
add(Single("C03", "rule cycle", ALL + ["utility"], oracles.c03, ["rules fired", "rules stopped"], "a rule fired or was stopped"))
add(Single("C04", "conflict resolution", ["conflict", "utility", "general", "conflict", "mixed", "goals", "retrieval", "compile"], oracles.c04, ["cycles"], "rules were selected"))
add(Single("C05", "wake-up", ALL, oracles.c05, ["no rule found"], "the procedural module went idle"))
add(Single("C06", "actions", ["goals", "harvest", "general", "harvest", "goals", "retrieval", "mixed", "vision", "conflict"], oracles.c06, ["rules fired"], "rules fired"))
add(Single("C07", "memory", ["goals", "harvest", "retrieval", "harvest", "general", "mixed", "vision"], oracles.c07, ["rules fired"], "rules fired"))
add(Single("C08", "activation", ["retrieval", "activation", "learn", "mixed", "learn", "activation", "learn", "compile", "general"], modules.ORACLES["C08"], ["retrievals"], "retrievals took place", quick=4800))
add(Single("C09", "retrieval", ["retrieval", "activation", "mixed", "learn", "retrieval", "general"], modules.ORACLES["C09"], ["retrievals"], "retrievals took place"))
add(Single("C10", "latest request", ["goals", "retrieval", "harvest", "mixed", "vision", "general"], modules.ORACLES["C10"], ["rules fired"], "rules fired"))
add(Single("C11", "motor", ["motor", "env", "mixed", "general"], modules.ORACLES["C11"], ["manual COMMAND"], "the motor module was commanded"))
add(Single("C12", "environment", ["env", "vision", "mixed", "motor"], modules.ORACLES["C12"], ["environment events"], "the environment acted"))
add(Single("C13", "visual search", ["vision", "env", "mixed", "vision"], modules.ORACLES["C13"], ["location events", "location failed"], "something was searched"))
add(Single("C14", "encoding", ["vision", "vision", "env", "mixed"], modules.ORACLES["C14"], ["visual ENCODED VIS OBJECT", "visual PREPARATION ", "visual PREPARATION"], "attention was shifted"))
add(Single("C15", "utility learning", ["utility", "utility", "utility", "compile"], oracles.c15, ["rewards"], "a reward was given"))
add(multi.Interleaved())
add(multi.RealTime())
add(multi.Window())
add(Single("C19", "compiled rules", ["compile", "compile", "utility", "compile"], modules.ORACLES["C19"], ["rules compiled"], "rules were compiled"))
add(Single("C20", "module states", ["mixed", "goals", "vision", "retrieval", "motor", "mixed", "vision", "general", "harvest", "env"], modules.ORACLES["C20"], ["rules fired"], "rules fired"))
add(Single("C21", "ground chunks", ALL + ["compile", "faulty"], oracles.c21, ["rules fired"], "rules fired"))
add(Single("C22", "no crash", ALL + ["activation", "utility", "compile", "faulty", "faulty"], oracles.c22, ["events"], "events were reported"))


def get(id):
    return CHECKS[id]
