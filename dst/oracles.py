"""
Oracles over one recorded simulation. Each takes a Timeline and yields Violations.

An oracle judges what was observed against the specification of the model; wherever several orders of
simultaneous actions are legitimate it accepts every one of them.
"""

import math

from . import canon, faulty, ref
from .timeline import EPS, close, rt


class Violation:
    def __init__(self, prop, kind, msg, T=None, k=None, extra=None):
        self.prop, self.kind, self.msg = prop, kind, msg
        self.k = k
        self.t = T.steps[k].t if T is not None and k is not None and 0 <= k < len(T.steps) else None
        self.context = T.show(k) if T is not None and k is not None else []
        self.extra = extra

    def sig(self):
        return "%s:%s" % (self.prop, self.kind)

    def as_dict(self):
        return {"property": self.prop, "kind": self.kind, "message": self.msg, "step": self.k, "time": self.t, "events": self.context}

    def __repr__(self):
        return "%s %s: %s @%s %s" % (self.prop, self.kind, self.msg, self.t, self.context)


# ---------------------------------------------------------------- C01

def c01(T):
    now = float(T.spec.get("initial_time") or 0)
    last = None
    for e in T.events:
        if abs(e.stamp - e.t) > 5.1e-5:
            yield Violation("C01", "stamp", "event stamped %r is reported when the clock shows %r" % (e.stamp, e.t), T, e.k)
        if e.stamp < now - 5.1e-5:
            yield Violation("C01", "early", "event stamped %r precedes the initial time %r" % (e.stamp, now), T, e.k)
        if last is not None and e.stamp < last - 1e-9:
            yield Violation("C01", "backwards", "event stamped %r follows one stamped %r" % (e.stamp, last), T, e.k)
        last = e.stamp
    prev = None
    for i, s in enumerate(T.steps):
        if prev is not None and s.t < prev:
            yield Violation("C01", "clock", "the clock goes from %r back to %r" % (prev, s.t), T, i)
        prev = s.t


# ---------------------------------------------------------------- C03

def c03(T):
    rf = T.p["rule_firing"]
    for e, msg in T.malformed:
        yield Violation("C03", "sequence", msg, T, e.k)
    for i, c in enumerate(T.cycles):
        nxt = T.cycles[i + 1] if i + 1 < len(T.cycles) else None
        if c.none is not None and not close(c.none.stamp, c.cr.stamp):
            yield Violation("C03", "sequence", "rule selection takes time: %s to %s" % (c.cr.stamp, c.none.stamp), T, c.none.k)
        if c.selected is not None:
            if not close(c.selected.stamp, c.cr.stamp):
                yield Violation("C03", "sequence", "rule selection takes time: %s to %s" % (c.cr.stamp, c.selected.stamp), T, c.selected.k)
            due = c.selected.stamp + rf
            if c.end is None:
                if T.rec.end != "error" and (T.rec.rest or T.steps[-1].t > due + 1e-3):
                    yield Violation("C03", "unfinished", "rule %s, selected at %s, neither fires nor is stopped" % (c.rule, c.selected.stamp), T, c.selected.k)
                continue
            if not close(c.end.stamp, due, 1.01e-4):
                yield Violation("C03", "firing-time", "rule %s, selected at %s, ends at %s, not after the firing time %s" % (c.rule, c.selected.stamp, c.end.stamp, rf), T, c.end.k)
            r = T.rules.get(c.rule)
            if r is None:
                if c.rule not in getattr(T, "compiled", {}):
                    yield Violation("C03", "unknown-rule", "rule %s does not exist" % c.rule, T, c.end.k)
                continue
            ok = [ref.match_lhs(r, s.bufs, s.states) is not None for s in c.states]
            if c.fired and not any(ok):
                yield Violation("C03", "fired-unmatched", "rule %s fires although its conditions do not hold" % c.rule, T, c.end.k)
            if not c.fired and all(ok):
                yield Violation("C03", "stopped-matching", "rule %s is stopped although its conditions hold" % c.rule, T, c.end.k)
            if not c.fired:
                a, b = T.snap(c.end.k - 1), T.snap(c.end.k)
                if a is not b:
                    yield Violation("C03", "stopped-effect", "a stopped rule changes the state", T, c.end.k)
            # tried again at the same instant
            if T.rec.end != "error" or nxt is not None:
                if nxt is None:
                    g = T.group[c.end.k]
                    if T.complete(g) and close(c.t_end, c.end.stamp):
                        yield Violation("C03", "not-retried", "no rule selection after rule %s ended" % c.rule, T, c.end.k)
                elif not close(nxt.cr.stamp, c.t_end):
                    yield Violation("C03", "not-retried", "rule %s ends at %s, rule selection comes at %s" % (c.rule, c.t_end, nxt.cr.stamp), T, nxt.cr.k)
        elif c.none is None and nxt is None and T.rec.end != "error":
            g = T.group[c.cr.k]
            if T.complete(g):
                yield Violation("C03", "unfinished", "rule selection comes to no end", T, c.cr.k)


# ---------------------------------------------------------------- C04

def noises(T, cyc, util):
    """Possible assignments of the draws of a selection to the rules."""
    noise = T.p["utility_noise"]
    if not (T.p["subsymbolic"] and noise):
        return [({n: 0.0 for n in util}, None)]
    end = cyc.selected or cyc.none
    lo = T.steps[cyc.cr.k].i
    hi = T.steps[end.k].i if end else lo
    draws = [d[3] for d in T.rec.draws.log if d[1] == "logistic" and lo <= d[0] < max(hi, lo + 1) and abs(d[2][1] - noise) < 1e-12]
    return [(None, draws)]


def assignments(T, util, draws, matching):
    """
    The ways in which the rules may have been given their draws: [[(rules, draws), ...]], each way a list of groups in
    which any assignment is possible (rules of equal utility may come in any order).
    """
    names = list(util)
    first = T.snap(-1).util
    orders = [sorted(names, key=lambda n: util[n], reverse=True), sorted(names, key=lambda n: first.get(n, float("-inf")), reverse=True), names]
    keys = [util.get, lambda n: first.get(n, n), lambda n: n]
    for order, key in zip(orders, keys):
        for who in (order, [n for n in order if n in matching]):
            if len(who) != len(draws):
                continue
            groups, last = [], None
            for n, d in zip(who, draws):
                if not groups or key(n) != last:
                    groups.append(([], []))
                    last = key(n)
                groups[-1][0].append(n)
                groups[-1][1].append(d)
            yield groups


def can_win(rule, util, groups, matching):
    """Can the rule be the one of the highest utility among those matching? (verdict, its best utility, that of the best of the others)"""
    best = None
    for names, ds in groups:
        if rule in names:
            opts = sorted(ds)
    res = None
    for d in set(opts):
        mine = util[rule] + d
        other = float("-inf")
        for names, ds in groups:
            ds = sorted(ds)
            m = [n for n in names if n in matching and n != rule]
            if rule in names:
                ds.remove(d)
            if m:
                # rules of one group have equal utilities, so the least possible maximum is the len(m)-th smallest draw
                other = max(other, max(util[n] for n in m) + ds[len(m) - 1] if len({util[n] for n in m}) == 1 else min(util[n] for n in m) + ds[0])
        res = (mine >= other - 1e-9, mine, other)
        if res[0]:
            return res
    return res


def c04(T):
    for c in T.cycles:
        end = c.selected or c.none
        if end is None:
            continue
        states = T.window(max(-1, c.cr.k - 1), max(c.cr.k, end.k - 1))
        if any(n not in T.rules for s in states for n in s.util):
            continue      # a compiled rule that cannot be read
        verdicts = []
        for s in states:
            matching = {n for n in s.util if ref.match_lhs(T.rules[n], s.bufs, s.states) is not None}
            v = None
            if c.none is not None:
                if matching:
                    v = ("missed", "'no rule found' although the conditions of %s hold" % sorted(matching))
            elif c.rule not in matching:
                v = ("selected-unmatched", "rule %s is selected although its conditions do not hold" % c.rule)
            else:
                noise, draws = noises(T, c, s.util)[0]
                if draws is None:
                    best = max(s.util[n] for n in matching)
                    if s.util[c.rule] < best - 1e-9:
                        v = ("not-highest", "rule %s of utility %.4f is selected although a rule of utility %.4f matches" % (c.rule, s.util[c.rule], best))
                else:
                    v = ("draws", "%d draws for %d rules (%d of them matching)" % (len(draws), len(s.util), len(matching)))
                    for groups in assignments(T, s.util, draws, matching):
                        ok, mine, other = can_win(c.rule, s.util, groups, matching)
                        if ok:
                            v = None
                            break
                        v = ("not-highest", "rule %s of utility %.4f is selected although another has %.4f" % (c.rule, mine, other))
            if v is None:
                break
            verdicts.append(v)
        else:
            yield Violation("C04", verdicts[0][0], verdicts[0][1], T, end.k)


# ---------------------------------------------------------------- C05

def c05(T):
    for lo, hi, i in T.idle():
        g0 = T.group[lo]
        nxt = T.cycles[i + 1] if i + 1 < len(T.cycles) else None
        # a group of steps counts when it is finished before the next selection starts
        for g in range(g0, T.group[hi] + 1):
            a, b = max(T.groups[g][0], lo), T.groups[g][1]
            if b > hi or not T.complete(g):
                continue
            s = T.snap(b)
            for n in s.util:
                r = T.rules.get(n)
                if r is not None and ref.match_lhs(r, s.bufs, s.states) is not None:
                    yield Violation("C05", "asleep", "time advances%s although the conditions of %s hold" % ("" if g < T.ngroups - 1 else " (or the run rests)", n), T, b)
                    return
        for e in T.events:
            if lo < e.k <= hi and e.proc not in ("PROCEDURAL", "ENVIRONMENT"):
                b = T.last_of_instant(e.k)
                if b <= hi and T.complete(T.group[e.k]):
                    yield Violation("C05", "no-wakeup", "(%s, %s) while no rule is in progress does not lead to rule selection at that instant" % (e.proc, e.action), T, e.k)
                    return


# ---------------------------------------------------------------- C06, C07, C10 (goal-like buffers)

class BufOp:
    def __init__(self, T, cyc, code, buf, due, part, typ=None, slots=None):
        self.cyc, self.code, self.buf, self.due, self.part = cyc, code, buf, due, part
        self.typ, self.slots = typ, slots
        self.done = self.maybe = False
        self.superseded = None
        self.clear = part == "clear"
        self.binds = cyc.binds

    def results(self, content):
        """Possible contents after the operation."""
        out = []
        if self.part == "clear":
            return [()]
        for b in self.binds:
            try:
                vals = ref.resolve(self.slots, b)
            except (KeyError, ValueError):
                continue
            if self.part == "modify":
                if content:
                    out.append((ref.modified(content[0], self.typ, vals),))
            else:
                out.append((ref.mk(self.typ, vals),))
        return out

    def __repr__(self):
        return "%s%s (%s) of %s, due at %s" % (self.code, self.buf, self.part, self.cyc.rule, self.due)


def firing_ops(T, c):
    """Operations on buffers that a firing calls for; requests to retrieval, vision and motor are not among them."""
    r = T.rules.get(c.rule)
    if r is None or not c.fired:
        return []
    ops = []
    t, late = c.end.stamp, c.t_end
    for code, buf, typ, slots in r.actions:
        kind = T.kind_of(buf)
        base = t if code == "=" else late
        if code == "=":
            ops.append(BufOp(T, c, code, buf, t, "modify", typ, slots))
        elif code == "@":
            ops.append(BufOp(T, c, code, buf, rt(t + T.goals.get(buf, 0)), "create", typ, slots))
        elif code == "~":
            ops.append(BufOp(T, c, code, buf, late, "clear"))
        elif code == "*":
            ops.append(BufOp(T, c, code, buf, rt(base + T.goals.get(buf, 0)), "modify", typ, slots))
        elif code == "+" and kind == "goal":
            ops.append(BufOp(T, c, code, buf, base, "clear"))
            ops.append(BufOp(T, c, code, buf, rt(base + T.goals[buf]), "create", typ, slots))
    if T.p["strict_harvesting"]:
        used = {a[1] for a in r.rhs}
        for code, buf, _ in r.lhs:
            if code == "=" and buf not in used:
                ops.append(BufOp(T, c, "h", buf, late, "clear"))
    return ops


WILD = {"retrieval": ("RETRIEVED: ",), "location": ("ENCODED LOCATION",), "visual": ("ENCODED VIS OBJECT", "AUTOMATIC BUFFERING")}


def same_content(a, b):
    return a == b


def explain(T):
    """
    Explain every change of a buffer by an operation; the result is cached on the timeline:
    violations, and the changes with what explains them [(step, buffer, old, new, op or event)].
    """
    if hasattr(T, "_explained"):
        return T._explained
    viol, changes = [], []
    byfire = {}
    for c in T.cycles:
        if c.fired:
            byfire[c.end.k] = c
    pending = {}
    evs = {}
    for e in T.events:
        evs.setdefault(e.k, e)
    interrupted_error = T.rec.end == "error"

    def settle(g, idx):
        """At the end of instant g: what was due must have happened."""
        t = T.steps[idx].t
        for buf in pending:
            keep = []
            for op in pending[buf]:
                if op.due > t + 5e-5:
                    keep.append(op)
                    continue
                if op.done or op.superseded is not None:
                    continue
                lo, hi = T.groups[g]
                if any(w in op.results(w) for w in [T.snap(i).bufs.get(buf, ()) for i in range(max(-1, lo - 1), hi + 1)]):
                    continue
                if op.maybe:
                    continue
                if op.part == "modify" and any(not T.snap(i).bufs.get(buf, ()) for i in range(max(-1, lo - 1), hi + 1)):
                    continue      # nothing there to modify
                if not op.binds:
                    continue      # its firing is already in question (C03)
                viol.append(("undone", "%r has no effect" % op, hi, op))
            pending[buf] = keep

    for k in range(len(T.steps)):
        if k > 0 and T.group[k] != T.group[k - 1]:
            settle(T.group[k - 1], k - 1)
        a, b = T.snap(k - 1), T.snap(k)
        if k in byfire:
            c = byfire[k]
            for op in firing_ops(T, c):
                if op.code in "+*":
                    for old in pending.get(op.buf, ()):
                        if old.cyc is not c and old.code in "+*" and not old.done and old.superseded is None:
                            if old.due > c.t_end + 5e-5:
                                old.superseded = c.end.stamp
                            else:
                                old.maybe = True
                pending.setdefault(op.buf, []).append(op)
        if a is b or a.bufs == b.bufs:
            continue
        now = T.steps[k].t
        for buf in b.bufs:
            old, new = a.bufs.get(buf, ()), b.bufs[buf]
            if same_content(old, new):
                continue
            hit = None
            for op in sorted(pending.get(buf, ()), key=lambda o: "=@*h~+".index(o.code)):
                if op.done or op.superseded is not None or abs(op.due - now) > 5e-5:
                    continue
                if new in op.results(old):
                    hit = op
                    break
            if hit is not None:
                hit.done = True
                changes.append((k, buf, old, new, hit))
                continue
            kind = T.kind_of(buf)
            ev = None
            if kind in WILD:
                for j in range(k, min(T.last_of_instant(k), k + 12) + 1):
                    e = evs.get(j)
                    if e is not None and e.proc == buf and e.action.startswith(WILD[kind]) and not e.action.endswith("None"):
                        ev = e
                        break
            if ev is None and kind in ("location", "visual") and T.group[k] in T.screens:
                # a new screen: the automatic processes and the encodings they (or a request at the same time) replace may
                # change the buffer without reporting it
                ev = "screen"
            if ev is not None:
                changes.append((k, buf, old, new, ev))
                continue
            late = [op for op in pending.get(buf, ()) if op.superseded is not None and new in op.results(old)]
            wrong = [op for op in pending.get(buf, ()) if not op.done and abs(op.due - now) <= 5e-5]
            if interrupted_error and k == len(T.steps) - 1:
                continue
            if late:
                viol.append(("superseded-effect", "buffer %s: %r takes effect although it was superseded at %s" % (buf, late[0], late[0].superseded), k, late[0]))
            else:
                exp = [canon.text(x[0]) if x else "empty" for op in wrong for x in op.results(old)]
                viol.append(("unexplained", "buffer %s changes from %s to %s; %s" % (buf, canon.text(old[0]) if old else "empty", canon.text(new[0]) if new else "empty", "expected: %s" % exp if exp else "nothing calls for a change"), k, wrong[0] if wrong else None))
                if wrong:
                    wrong[0].done = True
            changes.append((k, buf, old, new, None))
    if T.steps and T.complete(T.group[-1]) and not interrupted_error:
        settle(T.group[-1], len(T.steps) - 1)
        if T.rec.rest:
            for buf in pending:
                for op in pending[buf]:
                    if not op.done and op.superseded is None and not op.maybe:
                        viol.append(("undone", "the run rests but %r never happens" % op, len(T.steps) - 1, op))
    T._explained = (viol, changes)
    return T._explained


def c06(T):
    viol, _ = explain(T)
    for kind, msg, k, op in viol:
        if kind == "undone" and op.code in "+*" and op.due > op.cyc.end.stamp + 5e-5:
            continue      # a request that is not delivered: C10
        yield Violation("C06", kind, msg, T, k)


def c10_goals(T):
    viol, _ = explain(T)
    for kind, msg, k, op in viol:
        if kind == "superseded-effect" or (kind == "undone" and op.code in "+*"):
            yield Violation("C10", kind, msg, T, k)


def tied(T, buf):
    """Index of the declarative memory tied to a buffer."""
    if len(T.spec.get("dms") or [[]]) == 1:
        return 0
    for g in T.spec["goals"]:
        if g["name"] == buf:
            return g["harvest"]
    for r in T.spec["retrievals"]:
        if r["name"] == buf:
            return r["dm"]
    if T.spec.get("vis"):
        return 0
    return [g for g in T.spec["goals"] if g["name"] == "g"][0]["harvest"]


def additions(a, b):
    """[(memory, chunk, stamp)] gained between two states, or a complaint."""
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if len(y) < len(x):
            return None, "memory %d: %d chunks become %d" % (i, len(x), len(y))
        for (c0, t0), (c1, t1) in zip(x, y):
            if c0 != c1:
                return None, "memory %d: %s is where %s was" % (i, canon.text(c1), canon.text(c0))
            if t1[:len(t0)] != t0:
                return None, "memory %d: the presentations of %s change from %s to %s" % (i, canon.text(c0), t0, t1)
            out += [(i, c0, t) for t in t1[len(t0):]]
        for c1, t1 in y[len(x):]:
            if not t1:
                return None, "memory %d: %s has no presentation" % (i, canon.text(c1))
            out += [(i, c1, t) for t in t1]
    return out, None


def c07(T):
    _, changes = explain(T)
    bygroup = {}
    for k, buf, old, new, why in changes:
        bygroup.setdefault(T.group[k], []).append((k, buf, old, new, why))
    events = {}
    for e in T.events:
        events.setdefault(T.group[e.k], []).append(e)
    for g in range(T.ngroups):
        lo, hi = T.groups[g]
        a, b = T.snap(lo - 1), T.snap(hi)
        if g == T.ngroups - 1 and T.rec.end == "error":
            return
        expected = []
        changed = {}
        for k, buf, old, new, why in bygroup.get(g, ()):
            changed.setdefault(buf, []).append((k, old, new))
            if old and (not new or T.kind_of(buf) == "retrieval" and not isinstance(why, BufOp) and why is not None):
                expected.append((tied(T, buf), old[0]))
        for e in events.get(g, ()):
            # a retrieved chunk that equals the one it replaces changes the memory, but not the buffer
            if T.kind_of(e.proc) == "retrieval" and e.action.startswith("RETRIEVED: ") and e.action != "RETRIEVED: None":
                start = [x.k for x in events[g] if x.proc == e.proc and x.k < e.k and x.action == "CLEARED"]
                start = start[-1] if start else e.k
                mine = [x for x in changed.get(e.proc, ()) if start <= x[0] <= e.k and x[2]]
                before = T.snap(start - 1).bufs[e.proc]
                if not mine and before:
                    expected.append((tied(T, e.proc), before[0]))
        # an object encoded at the very instant another one is takes its place (it may be the same one)
        twice = []
        for e in events.get(g, ()):
            if T.kind_of(e.proc) == "visual" and e.action == "CLEARED":
                old, new = T.snap(e.k - 1).bufs[e.proc], T.snap(e.k).bufs[e.proc]
                if old and new and sum(1 for x in events[g] if x.proc == e.proc and x.action == "CLEARED") > 1:
                    twice.append((tied(T, e.proc), old[0]))
        if a.dms is b.dms and not expected:
            continue
        got, bad = additions(a.dms, b.dms)
        if bad:
            yield Violation("C07", "lost", bad, T, hi)
            return
        now = rt(T.steps[hi].t)
        left = list(expected)
        for i, c, t in got:
            if t > now + 1e-6:
                yield Violation("C07", "future", "%s gets a presentation at %s, in the future of %s" % (canon.text(c), t, now), T, hi)
                return
            m = [x for x in left if x[0] == i and ref.same(x[1], c)]
            if not m and any(x[0] == i and ref.same(x[1], c) for x in twice) and abs(t - now) <= 1e-6:
                twice.remove([x for x in twice if x[0] == i and ref.same(x[1], c)][0])
                continue
            if not m:
                yield Violation("C07", "extra", "memory %d: %s gets a presentation (%s) although it was not cleared from a buffer at %s" % (i, canon.text(c), t, now), T, hi)
                return
            left.remove(m[0])
            if abs(t - now) > 1e-6:
                yield Violation("C07", "stamp", "%s, cleared at %s, gets a presentation stamped %s" % (canon.text(c), now, t), T, hi)
                return
        if left and T.complete(g):
            yield Violation("C07", "missing", "%s is cleared at %s but gets no presentation in its memory" % (canon.text(left[0][1]), now), T, hi)
            return


# ---------------------------------------------------------------- C21

def c21(T):
    seen = set()
    for i in range(-1, len(T.steps)):
        s = T.snap(i)
        if id(s) in seen:
            continue
        seen.add(id(s))
        for buf, content in s.bufs.items():
            if len(content) > 1:
                yield Violation("C21", "capacity", "buffer %s holds %d chunks" % (buf, len(content)), T, i)
                return
            for c in content:
                if not canon.ground(c):
                    yield Violation("C21", "ground", "buffer %s holds %s" % (buf, canon.text(c)), T, i)
                    return
        if i < 0 or s.dms is not T.snap(i - 1).dms:
            for dm in s.dms:
                for c, _ in dm:
                    if not canon.ground(c):
                        yield Violation("C21", "ground", "memory holds %s" % canon.text(c), T, i)
                        return
    for i, a, b in T.rec.mutated:
        yield Violation("C21", "mutated", "the chunk %s changes in place to %s" % (canon.text(a), canon.text(b)), T, len(T.steps) - 1)
        return


# ---------------------------------------------------------------- C22

def c22(T):
    x = T.rec.exc
    wrong, accounted = faulty.judge(T, Violation)
    yield from wrong[:1]
    if T.rec.end == "limit":
        yield Violation("C22", "endless", "the run exceeds %s steps without reaching the requested time" % T.rec.limit, T, len(T.steps) - 1)
    elif T.rec.end == "error":
        if x["type"] == "ACTRError" and "no chunk to modify" in x["msg"] and emptied(T):
            return
        if accounted:
            return
        yield Violation("C22", "crash:%s:%s" % (x["root"], (x.get("frames") or ["?"])[-1]), "%s: %s %s" % (x["type"], x["msg"], x.get("frames")), T, len(T.steps) - 1, extra=x)


def emptied(T):
    """Did a rule ask to modify, later, a chunk that has been cleared by then?"""
    for c in T.cycles:
        r = T.rules.get(c.rule)
        if c.fired and r is not None:
            for a in r.actions:
                if a[0] == "*" and not T.steps[-1].s.bufs.get(a[1]):
                    return True
    return False


# ---------------------------------------------------------------- C15

def c15(T):
    p = T.p
    used = {}
    rewards = {n: r.reward for n, r in T.rules.items()}
    cur = dict(T.snap(-1).util)
    plan = {}
    for c in T.cycles:
        if c.selected:
            plan[c.selected.k] = ("sel", c)
        if c.fired:
            plan[c.end.k] = ("fire", c)
    created = {}
    for e in T.events:
        if e.proc == "PROCEDURAL" and (e.action.startswith("RULE CREATED: ") or e.action.startswith("RULE RE-CREATED: ")):
            created[e.k] = e
    lastk = -1
    for k in sorted(plan):
        what, c = plan[k]
        if what == "sel":
            bad = drift(T, lastk, k, cur, created)
            if bad:
                yield bad
                return
            lastk = k
            used.setdefault(c.rule, []).append(c.cr.stamp)
            continue
        new = dict(cur)
        note = ""
        if p["utility_learning"] and rewards.get(c.rule) is not None:
            for n in used:
                for t in used[n]:
                    new[n] = round(new[n] + p["utility_alpha"] * (rewards[c.rule] - (c.end.stamp - t) - new[n]), 4)
            note = " on reward %s of %s at %s for %s" % (rewards[c.rule], c.rule, c.end.stamp, used)
            used = {}
        # compilation, just before the rule fires
        s = T.snap(k)
        for e in c.created:
            name = e.action.split(": ", 1)[1]
            if "RE-CREATED" in e.action:
                if p["utility_learning"]:
                    par = parents(T, c, name)
                    if par in new and name in new:
                        new[name] = round(new[name] + p["utility_alpha"] * (new[par] - new[name]), 4)
                    else:
                        new[name] = s.util.get(name, 0)
            else:
                new[name] = 0
        for n in s.util:
            if n not in new:
                new[n] = s.util[n]       # a rule that appears: C19
            tol = 1.5e-4 * (1 + sum(len(x) for x in used.values()))
            if abs(s.util[n] - new[n]) > 2e-4:
                yield Violation("C15", "wrong", "utility of %s: %s expected, %s found%s" % (n, new[n], s.util[n], note), T, k)
                return
        for n in new:
            if n not in s.util:
                if n in cur:
                    yield Violation("C15", "lost", "rule %s disappears" % n, T, k)
                    return
        cur = dict(s.util)
        lastk = k
    bad = drift(T, lastk, len(T.steps), cur, created)
    if bad:
        yield bad


def drift(T, a, b, cur, created):
    """Utilities do not change between a and the firing that follows (firing itself happens in the steps of its instant)."""
    for k in range(max(a, -1), min(b, len(T.steps) - 1) + 1):
        s = T.snap(k)
        if s.util is cur or s.util == cur:
            continue
        for n in s.util:
            if n in cur and abs(s.util[n] - cur[n]) > 1e-9:
                # the firing step comes right after the update, at the same instant
                fired = [c for c in T.cycles if c.fired and c.end.k >= k and c.selected.k <= k and T.group[c.end.k] == T.group[k]]
                if fired or (T.p["production_compilation"] and T.rec.rest and k >= len(T.steps) - 2):
                    continue
                return Violation("C15", "drift", "utility of %s goes from %s to %s without a reward" % (n, cur[n], s.util[n]), T, k)
    return None


def parents(T, c, name):
    """First parent of a rule compiled in this cycle: the rule fired before the rule that fired last."""
    fired = [x for x in T.cycles if x.fired and x.end.k < c.end.k] if c.end else []
    return fired[-2].rule if len(fired) >= 2 else None
