"""
C20: what the modules answer when asked about their state, against what they are actually doing.

Judged on the state at the end of every finished instant; what a module is doing is taken from the requests of the fired
rules and from the events.
"""

from . import oracles, peripherals, retrieval
from .oracles import Violation
from .timeline import GROUP

TOL = 5.5e-5
STATE, PREP, PROC, EXEC = 0, 1, 2, 3
NAMES = ("state", "preparation", "processor", "execution")


def ends(T):
    """[(instant, its last step)] of the finished instants."""
    return [(g, T.groups[g][1]) for g in range(T.ngroups) if T.complete(g)] if T.rec.end != "error" else [(g, T.groups[g][1]) for g in range(T.ngroups - 1)]


def cover(spans, g):
    """Is instant g in one of the spans [from, to)? Spans end with None when open."""
    return any(a <= g and (b is None or g < b) for a, b in spans)


def edge(spans, g):
    return any(g == a or g == b for a, b in spans)


def unknown(T):
    return any(c.fired and (c.rule not in T.rules or not c.binds) for c in T.cycles)


def goals(T):
    for buf, delay in T.goals.items():
        ops = [op for c in T.cycles for op in oracles.firing_ops(T, c) if op.buf == buf]
        spans = []        # (from, due, kind)
        for op in ops:
            if op.part == "clear":
                continue
            if op.code in "+*":
                begin = op.due - delay
                for s in spans:
                    if s[2] in "+*" and s[1] > op.cyc.end.stamp and s[3] is not op.cyc:
                        s[1], s[4] = min(s[1], op.cyc.end.stamp), True
                spans.append([begin, op.due, op.code, op.cyc, False])
            elif op.code == "@":
                spans.append([op.cyc.end.stamp, op.due, "@", op.cyc, False])
        for g, k in ends(T):
            t = T.steps[k].t
            s = T.snap(k)
            got = s.states[buf][STATE]
            inside = [x for x in spans if x[0] + TOL < t < x[1] - TOL]
            near = [x for x in spans if x[0] - TOL <= t <= x[1] + TOL]
            if got == "error":
                yield Violation("C20", "goal", "goal buffer %s answers error at %.4f" % (buf, t), T, k)
                return
            if [x for x in inside if x[2] in "+*"] and got != "busy":
                yield Violation("C20", "goal", "goal buffer %s is %s at %.4f, although the %s of rule %s is to be done only at %.4f" % (
                    buf, got, t, inside[0][2] + buf, inside[0][3].rule, inside[0][1]), T, k)
                return
            # (while an earlier request is being carried out, the state is that of the request)
            if [x for x in inside if x[2] == "@" and not any(y[2] != "@" and y[0] - TOL <= x[1] and y[1] >= x[0] - TOL for y in spans)] and got != "busy" and not [x for x in near if x[2] != "@"]:
                yield Violation("C20", "goal", "goal buffer %s is %s at %.4f, although it is being written until %.4f" % (buf, got, t, inside[0][1]), T, k)
                return
            if (not near or not delay) and got != "free":
                yield Violation("C20", "goal", "goal buffer %s is %s at %.4f, although nothing is being done with it" % (buf, got, t), T, k)
                return
            # what is begun in the middle of an instant is going on at its end
            if delay > 2 * TOL and got != "busy" and [x for x in near if x[2] in "+*" and abs(x[0] - t) <= TOL and x[1] > t + TOL and not x[4]] \
                    and not [x for x in near if abs(x[1] - t) <= TOL]:
                yield Violation("C20", "goal", "goal buffer %s is %s at %.4f, although a request was just accepted" % (buf, got, t), T, k)
                return


def retrievals(T):
    reqs, stray = retrieval.requests(T)
    for buf, (todo, mine) in reqs.items():
        if any(b == buf for b, _ in stray):
            continue
        busy, doubt = [], []
        for n, q in enumerate(mine):
            nxt = mine[n + 1] if n + 1 < len(mine) else None
            a = T.group[q.start.k]
            b = T.group[q.delivered[0].k] if q.delivered else None
            busy.append((a, b, q))
            if nxt is not None and (b is None or b >= T.group[nxt.cyc.end.k]):
                busy[-1] = (a, T.group[nxt.cyc.end.k], q)
            # a rule that fires and a request that starts only when the rule is through
            doubt.append((T.group[q.cyc.end.k], T.group[q.start.k]))
        for q in todo:
            if q.start is None:
                doubt.append((T.group[q.cyc.end.k], T.ngroups))
        for g, k in ends(T):
            if any(a <= g <= b for a, b in doubt if b > a):
                continue
            s = T.snap(k)
            got = s.states[buf][STATE]
            now = [q for a, b, q in busy if a <= g and (b is None or g < b)]
            if now and got != "busy":
                yield Violation("C20", "retrieval", "%s is %s at %.4f, although the request of %s is not answered yet" % (buf, got, T.steps[k].t, now[0].start.stamp), T, k)
                return
            if not now and got == "busy":
                yield Violation("C20", "retrieval", "%s is still busy at %.4f, although no request is pending" % (buf, T.steps[k].t), T, k)
                return
            if not now and got == "error":
                last = [q for a, b, q in busy if b is not None and b <= g]
                if not last or (last[-1].delivered and last[-1].got is not None):
                    yield Violation("C20", "retrieval", "%s answers error at %.4f, although its last request did not fail" % (buf, T.steps[k].t), T, k)
                    return


def locations(T):
    if not T.visloc:
        return
    buf = T.visloc
    failed = False
    evs = {}
    for e in T.events:
        if e.proc == buf and e.action.startswith("ENCODED LOCATION"):
            evs.setdefault(T.group[e.k], []).append(e)
    for g, k in ends(T):
        here = evs.get(g, ())
        got = T.snap(k).states[buf][STATE]
        if got == "busy":
            yield Violation("C20", "location", "%s is busy at %.4f, although a search takes no time" % (buf, T.steps[k].t), T, k)
            return
        kinds = {"None" in e.action.split("'")[1] if "'" in e.action else False for e in here}
        if here:
            failed = True if True in kinds else False
        if got == "error" and not failed:
            yield Violation("C20", "location", "%s answers error at %.4f, although its last search did not fail" % (buf, T.steps[k].t), T, k)
            return
        if got == "free" and len(here) == 1 and True in kinds and not any(
                T.group[c.end.k] == g or abs(c.t_end - T.steps[k].t) <= TOL for c in T.cycles if c.fired and touches_other(T, c, buf)) and g not in T.screens:
            yield Violation("C20", "location", "%s answers free at %.4f, right after its search failed" % (buf, T.steps[k].t), T, k)
            return
        if got == "free":
            failed = False


def touches_other(T, c, buf):
    """Does a rule do something with a buffer besides asking it for something?"""
    r = T.rules.get(c.rule)
    if r is None:
        return True
    if any(a[1] == buf and a[0] != "+" for a in r.rhs):
        return True
    return bool(T.p["strict_harvesting"] and any(x[0] == "=" and x[1] == buf for x in r.lhs) and not any(a[1] == buf for a in r.rhs))


def manual(T):
    cmds, bad = peripherals.motor(T)
    if cmds is None or bad:
        return
    has = any("manual" in T.snap(i).states for i in (-1, len(T.steps) - 1))
    if not has:
        return
    events = [e for e in T.events if e.proc == "manual"]
    done = {w: [e for e in events if e.action.startswith(w)] for w in ("INITIATION COMPLETE", "MOVEMENT FINISHED")}
    spans = {STATE: [], PREP: [], PROC: [], EXEC: []}
    doubt = []
    n = 0
    for i, m in enumerate(cmds):
        nxt = cmds[i + 1] if i + 1 < len(cmds) else None
        a = T.group[m.start.k]
        if T.group[m.cyc.end.k] != a:
            doubt.append((T.group[m.cyc.end.k], a))
        if m.prepared is None:
            b = T.group[nxt.start.k] if nxt is not None else None
            for w in (STATE, PREP, PROC):
                spans[w].append((a, b))
            continue
        p = T.group[m.prepared.k]
        ini = T.group[done["INITIATION COMPLETE"][n].k] if n < len(done["INITIATION COMPLETE"]) else None
        fin = T.group[done["MOVEMENT FINISHED"][n].k] if n < len(done["MOVEMENT FINISHED"]) else None
        n += 1
        spans[PREP].append((a, p))
        spans[PROC].append((a, ini))
        spans[EXEC].append((p, fin))
        spans[STATE].append((a, fin))
    for g, k in ends(T):
        if any(a <= g <= b for a, b in doubt):
            continue
        st = T.snap(k).states["manual"]
        for w in (STATE, PREP, PROC, EXEC):
            want = "busy" if cover(spans[w], g) else "free"
            if st[w] != want:
                yield Violation("C20", "manual", "the motor module answers %s %s at %.4f, but it is %s" % (NAMES[w], st[w], T.steps[k].t, want), T, k)
                return


def visual(T):
    if not T.visual:
        return
    shifts, bad = peripherals.vision(T)
    if shifts is None or bad:
        return
    if any(getattr(s, "unknown", False) for s in shifts):
        return
    buf = T.visual
    requests = []     # firings that ask the module for something
    for c in T.cycles:
        r = T.rules.get(c.rule) if c.fired else None
        if r is not None and any(a[0] == "+" and a[1] == buf for a in r.actions):
            requests.append(c)
    if any(s.finish is not None and o.finish is not None and s.exe == 0 and abs(s.finish - o.finish) < 1e-6 for s, o in zip(shifts[1:], shifts)):
        return      # a movement that takes no time at all
    fails = [e for e in T.events if e.proc == buf and e.action.startswith("NO VISUAL OBJECT")]
    screens = sorted(T.screens)
    prep, doubt, state, exe = [], [], [], []
    for c in requests:
        a, b = T.group[c.end.k], group_at(T, c.t_end)
        if b is None or a != b:
            doubt.append((a, b if b is not None else T.ngroups))
    moving = True
    for i, s in enumerate(shifts):
        if s.exe is None:
            break
        a = T.group[s.start.k]
        later = [T.group[c.end.k] for c in requests if c.end.k > s.start.k]
        scr = [g for g in screens if g >= a]
        cut = min(later + scr + [T.ngroups])
        if s.prepared is not None:
            p = T.group[s.prepared.k]
            if cut >= p:
                # an encoding between the two stages keeps the preparation going until it is done
                if s.prep < s.enc <= s.prep + s.exe:
                    q = T.group[s.encoded.k] if s.encoded is not None else T.ngroups
                    prep.append((a, p, i))
                    doubt_prep = (p, q)
                    s.phase = doubt_prep
                else:
                    prep.append((a, p, i))
        else:
            prep.append((a, cut, i))
        # the module is busy with the latest request until its object is encoded
        if s.encoded is not None:
            e = T.group[s.encoded.k]
        elif s.gone is not None:
            e = T.group[s.gone.k]
        else:
            e = None
        if e is None:
            due = s.encode
            e = group_at(T, due) if due is not None else (group_at(T, s.finish) if s.finish is not None else None)
            if e is None:
                e = T.ngroups
        state.append((a, min(e, cut), i))
        if s.goes_on and s.begin is not None:
            land = getattr(s, "landed", None)
            x = T.group[land.k] if land is not None else T.ngroups
            exe.append((T.group[s.prepared.k] if s.enc <= s.prep or s.enc > s.prep + s.exe else (T.group[s.encoded.k] if s.encoded is not None else x), x))
    for g, k in ends(T):
        if any(a <= g <= b for a, b in doubt):
            continue
        st = T.snap(k).states[buf]
        for a, b, i in prep:
            if a <= g < b and st[PREP] != "busy":
                yield Violation("C20", "visual", "%s answers preparation %s at %.4f, although a shift of attention is being prepared" % (buf, st[PREP], T.steps[k].t), T, k)
                return
        for a, b, i in prep:
            if a <= g < b and st[PROC] != "busy":
                yield Violation("C20", "visual", "%s answers processor %s at %.4f, although a shift of attention is being prepared" % (buf, st[PROC], T.steps[k].t), T, k)
                return
        for a, b in exe:
            if a <= g < b and st[EXEC] != "busy":
                yield Violation("C20", "visual", "%s answers execution %s at %.4f, although the eye is moving" % (buf, st[EXEC], T.steps[k].t), T, k)
                return
        for a, b, i in state:
            if a <= g < b and st[STATE] != "busy":
                yield Violation("C20", "visual", "%s is %s at %.4f, although the object attended at %s is not encoded yet" % (buf, st[STATE], T.steps[k].t, shifts[i].t0), T, k)
                return
    # before anything is asked of it and before the screen changes, and when all is quiet
    first = min([T.group[c.end.k] for c in requests] + screens + [T.ngroups])
    for g, k in ends(T):
        quiet = g < first or (g == T.ngroups - 1 and T.rec.rest)
        if not quiet:
            continue
        st = T.snap(k).states[buf]
        for w in (STATE, PREP, PROC, EXEC):
            if st[w] == "busy":
                yield Violation("C20", "visual", "%s answers %s busy at %.4f, although nothing is going on" % (buf, NAMES[w], T.steps[k].t), T, k)
                return
        if st[STATE] == "error" and not any(T.group[e.k] <= g for e in fails):
            yield Violation("C20", "visual", "%s answers error at %.4f, although nothing failed" % (buf, T.steps[k].t), T, k)
            return
    # nothing pending, although the run goes on: every shift is over
    last_screen = {}
    for g, k in ends(T):
        if any(a <= g <= b for a, b in doubt) or any(x <= g for x in screens):
            continue
        if any(T.group[s.start.k] <= g and (s.exe is None or over(T, s) is None or over(T, s) > g) for s in shifts):
            continue
        st = T.snap(k).states[buf]
        for w in (STATE, PREP, PROC, EXEC):
            if st[w] == "busy":
                yield Violation("C20", "visual", "%s answers %s busy at %.4f, although every shift of attention is over" % (buf, NAMES[w], T.steps[k].t), T, k)
                return


def over(T, s):
    """The instant at which a shift is completely over (None: unknown)."""
    land = getattr(s, "landed", None)
    if land is None:
        return None
    ends_ = [T.group[land.k]]
    if s.encoded is not None:
        ends_.append(T.group[s.encoded.k])
    elif s.gone is not None:
        ends_.append(T.group[s.gone.k])
    else:
        return None
    return max(ends_)


def group_at(T, t):
    """First instant at or after a time (None: the recording ends before)."""
    for g in range(T.ngroups):
        if T.steps[T.groups[g][0]].t >= t - TOL:
            return g
    return None


def c20(T):
    if unknown(T):
        return
    for f in (goals, retrievals, locations, manual, visual):
        yield from f(T)
