"""
C19: production compilation, judged rule against rule.

A compiled rule is read off the production object and applied by the reference semantics to the state in which its
first parent fired; the result is compared with what the two parents did there, one after the other.
"""

from . import canon, ref, spec as specmod
from .oracles import Violation
from .timeline import rule_from_object


class Unfit(Exception):
    pass


def apply_goals(T, rule, binds, bufs):
    """Contents of the goal-like buffers once all actions of a firing have taken place."""
    out = {g: bufs.get(g, ()) for g in T.goals}
    late = []
    used = {a[1] for a in rule.rhs}

    def one(code, buf, typ, slots):
        if buf not in out:
            return
        if code == "~":
            out[buf] = ()
            return
        vals = ref.resolve(slots, binds)
        if code in "=*":
            if not out[buf]:
                raise Unfit("nothing to modify in %s" % buf)
            out[buf] = (ref.modified(out[buf][0], typ, vals),)
        else:
            out[buf] = (ref.mk(typ, vals),)

    for code, buf, typ, slots in rule.actions:
        if code in "!?":
            continue
        if code in "*+":
            late.append((code, buf, typ, slots))
            continue
        one(code, buf, typ, slots)
    if T.p["strict_harvesting"]:
        for code, buf, _ in rule.lhs:
            if code == "=" and buf not in used and buf in out:
                out[buf] = ()
    for x in late:
        one(*x)
    return out


def plain(content):
    return tuple(ref.untyped(c) for c in content)


def requests(T, rule, binds):
    """Requests to the modules behind retrieval, motor and vision: {buffer: (resolved pattern, slots left open)}."""
    out = {}
    for code, buf, typ, slots in rule.actions:
        if code == "+" and T.kind_of(buf) != "goal":
            pat, loose = ref.request(slots, binds)
            out[buf] = {s: (v, tuple(n)) for s, (v, n) in pat.items() if v is not None or n}, set(loose)
    return out


def unsafe(T, r1, r2):
    """Must the two rules not be merged?"""
    for code, buf, _, _ in r1.rhs:
        if code != "+":
            continue
        kind = T.kind_of(buf)
        q2 = [c[2] for c in r2.lhs if c[0] == "?" and c[1] == buf]
        if kind != "retrieval" and any(a[0] == "+" and a[1] == buf for a in r2.rhs):
            return "both make a request of %s" % buf
        if kind in ("manual", "visual", "location") and any(dict(q) != {"state": "busy"} for q in q2):
            return "the second depends on the outcome of the request of %s" % buf
        if kind in ("visual", "location") and any(c[0] == "=" and c[1] == buf for c in r2.lhs):
            return "the second harvests the request of %s" % buf
        if kind == "retrieval" and any(dict(q) == {"state": "error"} for q in q2):
            return "the second depends on the failure of the retrieval in %s" % buf
    return None


def same_rule(a, b):
    return [x for x in a.lhs] == [x for x in b.lhs] and a.rhs == b.rhs


def pair_of(T, cyc):
    """The firings a compilation reported in cycle cyc merges."""
    fired = [c for c in T.cycles if c.fired and c.end.k < cyc.end.k] if cyc.end else [c for c in T.cycles if c.fired]
    return (fired[-2], fired[-1]) if len(fired) >= 2 else None


def c19(T):
    if not hasattr(T, "compiled"):
        return
    # the parents are left as they were
    fresh = specmod.build_model(T.spec).model
    for r in T.spec["rules"]:
        n = r["name"]
        if n not in T.model.productions:
            yield Violation("C19", "parent-lost", "rule %s disappears" % n, T, len(T.steps) - 1)
            return
        if not same_rule(rule_from_object(n, T.model.productions[n]), rule_from_object(n, fresh.productions[n])):
            yield Violation("C19", "parent-altered", "rule %s is not what it was" % n, T, len(T.steps) - 1)
            return
    if not T.p["production_compilation"]:
        if T.compiled:
            yield Violation("C19", "uncalled", "rules %s appear without production compilation" % sorted(T.compiled), T, len(T.steps) - 1)
        return
    known = {}
    born = {}
    for cyc in T.cycles:
        for e in cyc.created:
            name = e.action.split(": ", 1)[1]
            again = "RE-CREATED" in e.action
            pair = pair_of(T, cyc) if cyc.end else None
            if pair is None and cyc.end:
                yield Violation("C19", "no-parents", "rule %s is compiled before two rules fired" % name, T, e.k)
                return
            if pair is None:
                continue
            c1, c2 = pair
            if c1.rule == c2.rule:
                yield Violation("C19", "no-parents", "rule %s is compiled from one rule, %s" % (name, c1.rule), T, e.k)
                return
            if again and name not in born:
                yield Violation("C19", "recreated", "rule %s is said to exist already" % name, T, e.k)
                return
            if not again and name in born:
                yield Violation("C19", "created", "rule %s is said to be new" % name, T, e.k)
                return
            born.setdefault(name, (c1, c2))
            known.setdefault((c1.rule, c2.rule), [])
            if name not in known[(c1.rule, c2.rule)]:
                known[(c1.rule, c2.rule)].append(name)
            new = T.compiled.get(name)
            if new is None:
                yield Violation("C19", "unreadable", "rule %s, compiled from %s and %s, cannot even be read" % (name, c1.rule, c2.rule), T, e.k)
                return
            r1, r2 = T.rules.get(c1.rule), T.rules.get(c2.rule)
            if r1 is None or r2 is None:
                continue
            why = unsafe(T, r1, r2)
            if why:
                yield Violation("C19", "unsafe", "%s and %s are compiled although %s" % (c1.rule, c2.rule, why), T, e.k)
                return
            bad = compare(T, new, r1, r2, c1, c2)
            if bad:
                yield Violation("C19", bad[0], "rule %s, compiled from %s and %s: %s" % (name, c1.rule, c2.rule, bad[1]), T, e.k)
                return
    # recognised, not duplicated
    for pair, names in known.items():
        for i, a in enumerate(names):
            for b in names[:i]:
                if T.compiled.get(a) and T.compiled.get(b) and same_rule(T.compiled[a], T.compiled[b]):
                    yield Violation("C19", "duplicate", "rules %s and %s, compiled from %s, are the same" % (b, a, pair), T, len(T.steps) - 1)
                    return
    # only where the first parent applies
    seen = set()
    for c in T.cycles:
        s = T.snap(c.cr.k)
        if id(s) in seen:
            continue
        seen.add(id(s))
        for name, (c1, c2) in born.items():
            new, r1 = T.compiled.get(name), T.rules.get(c1.rule)
            if new is None or r1 is None:
                continue
            if ref.match_lhs(new, s.bufs, s.states) is None:
                continue
            b1 = ref.match_lhs(r1, s.bufs, s.states)
            if b1 is None:
                yield Violation("C19", "overgeneral", "rule %s applies where its parent %s does not" % (name, c1.rule), T, c.cr.k)
                return
            r2 = T.rules.get(c2.rule)
            if r2 and not follows(T, r1, r2, b1, s):
                yield Violation("C19", "overgeneral", "rule %s applies where its parent %s does not apply after %s" % (name, c2.rule, c1.rule), T, c.cr.k)
                return


def after(T, r1, b1, s):
    """What the first rule leaves to the second one: the buffers, and those of modules (or goals, as to their states) that it used."""
    bufs = dict(s.bufs)
    bufs.update(apply_goals(T, r1, b1, s.bufs))
    used = {a[1] for a in r1.rhs if a[0] not in "!?"}
    if T.p["strict_harvesting"]:
        used |= {c[1] for c in r1.lhs if c[0] == "=" and c[1] not in T.goals}
    return bufs, used


def follows(T, r1, r2, b1, s):
    """Does the second rule apply once the first one has been carried out, as far as the first one determines it?"""
    try:
        bufs, used = after(T, r1, b1, s)
    except (KeyError, ValueError, Unfit):
        return True
    part = ref.Rule(r2.name, [c for c in r2.lhs if c[1] not in used or (c[0] == "=" and c[1] in T.goals)], ())
    return ref.match_lhs(part, bufs, s.states) is not None


def compare(T, new, r1, r2, c1, c2):
    ok = None
    for s in reversed(c1.states):
        b1 = ref.match_lhs(r1, s.bufs, s.states)
        if b1 is None:
            continue
        b = ref.match_lhs(new, s.bufs, s.states)
        if b is None:
            # the second rule found something else than what the first one left, or the compiled rule should apply
            try:
                bufs, used = after(T, r1, b1, s)
            except (KeyError, ValueError, Unfit):
                return None
            modules = {x[1] for x in r1.lhs + r2.lhs}
            if {a[1] for a in r1.rhs if a[0] in "+@"} & {a[1] for a in r2.rhs}:
                return None     # the compiled rule changes the chunk that is there, instead of making one
            if {x[1] for x in r2.lhs if x[0] == "?"} & {x[1] for x in r1.lhs + r1.rhs}:
                return None     # what the second rule asks for depends on what the first one did
            if T.p["partial_matching"] or any(b1.get(v[1], "") is None for a in r1.rhs if a[0] == "+" for v in (a[3] or {}).values()):
                return None     # what is retrieved does not have to be what was asked for (a variable bound to nothing fits anything)
            if all(plain(bufs.get(m, ())) == plain(x.bufs.get(m, ())) and s.states.get(m) == x.states.get(m) for m in modules if m not in used or m in T.goals for x in c2.states):
                return ("inapplicable", "it does not apply where they fired")
            return None
        modules = [x[1] for x in new.lhs if x[0] == "=" and x[1] not in T.goals]
        if any(plain(x.bufs.get(m, ())) != plain(s.bufs.get(m, ())) for m in modules for x in c2.states):
            ok = True           # a module changed what the second rule found
            continue
        for b2 in c2.binds:
            try:
                mid = apply_goals(T, r1, b1, s.bufs)
                if not any(all(plain(mid[g]) == plain(x.bufs.get(g, ())) for g in mid) for x in c2.states):
                    ok = True   # something else changed the goals between the two firings
                    continue
                want = apply_goals(T, r2, b2, mid)
            except (KeyError, ValueError, Unfit):
                ok = True
                continue
            try:
                got = apply_goals(T, new, b, s.bufs)
                greq = requests(T, new, b)
            except KeyError as e:
                return ("unbound", "its action uses %s, which its conditions do not bind" % e)
            except ValueError as e:
                return ("negation", "its action sets a negated value")
            except Unfit as e:
                return ("unfit", "%s" % e)
            bad = [g for g in want if plain(want[g]) != plain(got[g])]
            if not bad:
                ok = True
                wreq = requests(T, r2, b2)
                for buf, x in requests(T, r1, b1).items():
                    if T.kind_of(buf) != "retrieval":
                        wreq.setdefault(buf, x)
                for buf in wreq:
                    if buf not in greq:
                        return ("request-lost", "the request of %s is missing" % buf)
                    free = greq[buf][1] | wreq[buf][1]      # a variable bound to nothing: no constraint, or an empty slot
                    g, w = ({s: x for s, x in p[0].items() if s not in free} for p in (greq[buf], wreq[buf]))
                    if g != w:
                        return ("request-changed", "the request of %s is %s, not %s" % (buf, g, w))
                continue
            if ok is None:
                ok = ("result", "%s becomes %s, its parents make it %s" % (bad[0], [canon.text(x) for x in got[bad[0]]] or "empty", [canon.text(x) for x in want[bad[0]]] or "empty"))
        return ok if isinstance(ok, tuple) else None
    return None
