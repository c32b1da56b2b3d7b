"""
Rules that cannot be carried out: which actions of a specified rule are faulty, how one is made, and the judgement.

A faulty action (an unbound variable, a negated value in an action that sets a buffer, an unknown key or command) has to
end the run with an ACT-R error that names the problem, at the instant at which the action takes place (when the rule
fires; for a goal-like buffer with a delay, when the delay is over, unless the request has been replaced by then), and the
buffer concerned never gets a chunk from it. No other run ends with an error.
"""

from . import canon
from .timeline import rt

KEYS = {"1", "2", "3", "4", "5", "Q", "W", "E", "R", "T", "A", "S", "D", "F", "G", "Z", "X", "C", "V", "B", "SPACE",
        "6", "7", "8", "9", "0", "Y", "U", "I", "O", "P", "H", "J", "K", "L", "N", "M"}


class Fault:
    def __init__(self, action, kind, words):
        self.action, self.kind, self.words = action, kind, words

    def __repr__(self):
        return "%s in %s%s" % (self.kind, self.action[0], self.action[1])


def kind_of(spec, buf):
    vis = spec.get("vis") or {"visual": "visual", "visual_location": "visual_location"}
    if buf == "manual":
        return "manual"
    if spec.get("env") and buf == vis["visual"]:
        return "visual"
    if spec.get("env") and buf == vis["visual_location"]:
        return "location"
    if buf in [r["name"] for r in spec.get("retrievals", [{"name": "retrieval"}])]:
        return "retrieval"
    return "goal"


def bound_in(rule):
    bound = set()
    for c in rule["lhs"]:
        if c[0] == "=":
            bound.add(c[1])
            bound.update(sp["var"] for sp in c[3].values() if sp.get("var"))
    return bound


def faults_of(spec, rule):
    bound = bound_in(rule)
    out = []
    for a in rule["rhs"]:
        if a[0] not in "=@*+":
            continue
        kind = kind_of(spec, a[1])
        free = [x for sp in a[3].values() for x in ([sp["var"]] if sp.get("var") else []) + list(sp.get("nvar", ())) if x not in bound]
        neg = [x for sp in a[3].values() for x in list(sp.get("nv", ())) + list(sp.get("nvar", ()))]
        searches = a[0] == "+" and kind in ("retrieval", "location")
        if free:
            out.append(Fault(a, "unbound variable", free))
        elif neg and not searches:
            out.append(Fault(a, "negated value", ["negative"]))
        elif a[0] == "+" and kind == "manual":
            key, cmd = a[3].get("key", {}), a[3].get("cmd", {})
            if cmd.get("v") != "press_key":
                out.append(Fault(a, "unknown command", ["command"]))
            elif not key.get("var") and (key.get("v") or "").upper() not in KEYS:
                out.append(Fault(a, "unknown key", ["key"]))
        elif a[0] == "+" and kind == "visual" and not a[3].get("cmd", {}).get("var"):
            if a[3].get("cmd", {}).get("v") not in ("move_attention", "clear"):
                out.append(Fault(a, "unknown command", ["command"]))
    return out


def break_rule(rng, spec, rule):
    """Makes one action of a rule faulty; False if it has none that could be."""
    todo = [a for a in rule["rhs"] if a[0] in "=@*+"]
    if not todo:
        return False
    # requests, rather than the control buffer
    a = rng.choice([x for x in todo if x[0] != "="] or todo) if rng.random() < 0.7 else rng.choice(todo)
    kind = kind_of(spec, a[1])
    if a[0] == "+" and kind == "manual":
        x = rng.random()
        if x < 0.35:
            a[3]["key"] = {"v": rng.choice(["F1", "enter", "ctrl"])}
        elif x < 0.45:
            a[3].pop("key", None)
        elif x < 0.75:
            a[3]["cmd"] = {"v": rng.choice(["click", "press", "move_attention"])}
        elif x < 0.85:
            a[3].pop("cmd", None)
        else:
            a[3]["key"] = {"var": "unbound"}
    elif a[0] == "+" and kind == "visual":
        x = rng.random()
        if x < 0.5:
            a[3]["cmd"] = {"v": rng.choice(["look", "press_key"])}
        elif x < 0.7:
            a[3].pop("cmd", None)
        else:
            a[3]["screen_pos"] = {"var": "unbound"}
    else:
        slots = {"goal": ["a", "b", "st"], "retrieval": ["k", "v", "w"], "location": ["screen_x", "value"]}.get(kind, ["value"])
        if a[2] == "ctl":
            slots = ["a", "b", "st"]
        slot = rng.choice(slots)
        bound = sorted(bound_in(rule))
        x = rng.random()
        if x < 0.5 or (a[0] == "+" and kind in ("retrieval", "location")):
            a[3][slot] = {"var": "unbound"}
        elif x < 0.8 or not bound:
            a[3][slot] = {"nv": [rng.choice(["x", "y"])]}
        else:
            a[3][slot] = {"nvar": [rng.choice(bound)]}
    return True


def due_of(T, c, fault):
    a = fault.action
    if a[0] == "=":
        return rt(c.end.stamp)
    base = rt(c.end.stamp)
    if a[0] != "@":
        base = rt(c.t_end)
    return rt(base + T.goals.get(a[1], 0))


def judge(T, Violation):
    """Violations, and whether the error with which the run ended (if any) is accounted for."""
    rules = {r["name"]: r for r in T.spec["rules"]}
    faults = {name: faults_of(T.spec, r) for name, r in rules.items()}
    err = T.rec.end == "error" and T.rec.exc["type"] == "ACTRError"
    last = T.steps[-1].t if T.steps else 0.0
    end = T.rec.t_end if T.rec.t_end is not None else last
    told = None
    out = []
    for i, c in enumerate(T.cycles):
        if not c.fired:
            continue
        for f in faults.get(c.rule, ()):
            due = due_of(T, c, f)
            buf = f.action[1]
            replaced, maybe = False, False
            for d in T.cycles[i + 1:]:
                if d.fired and d.rule in rules and any(x[0] in "+*" and x[1] == buf for x in rules[d.rule]["rhs"]):
                    at = rt(d.t_end)
                    if at < due - 2e-5:
                        replaced = True
                    elif at < due + 2e-5:
                        maybe = True
            if T.kind_of(buf) == "location" and any(abs(T.steps[T.groups[g][0]].t - due) < 2e-5 for g in T.screens):
                maybe = True      # automatic search at the very instant of the request takes its place
            if replaced:
                continue
            if err and abs(end - due) < 2e-4:
                told = (c, f) if told is None or any(w in T.rec.exc["msg"] for w in f.words) else told
            elif not maybe and end > due + 2e-4:
                out.append(Violation("C22", "skipped", "rule %s fires at %s with %s (%s%s), and nothing is reported at %s" % (c.rule, c.end.stamp, f.kind, f.action[0], f.action[1], due), T, c.end.k))
    if err and told is not None:
        c, f = told
        msg = T.rec.exc["msg"]
        if not any(w in msg for w in f.words):
            out.append(Violation("C22", "unnamed", "rule %s cannot be carried out (%s in %s%s), but the error reported is: %s" % (c.rule, f.kind, f.action[0], f.action[1], msg), T, c.end.k))
        final = getattr(T.rec, "final", None)
        buf, code = f.action[1], f.action[0]
        if final is not None and sum(1 for a in rules[c.rule]["rhs"] if a[1] == buf) == 1:
            before = [s.bufs.get(buf, ()) for s in T.window(max(-1, T.first_of_instant(c.end.k) - 1), len(T.steps) - 1)]
            got = final.bufs.get(buf, ())
            if got not in before and not (got == () and code == "+"):
                out.append(Violation("C22", "half", "rule %s cannot be carried out (%s in %s%s), and leaves %s in the buffer" % (c.rule, f.kind, code, buf, [canon.text(x) for x in got]), T, len(T.steps) - 1))
    return out, told is not None
