"""
C11 motor, C12 environment, C13 visual search, C14 attention: reference machines fed with the commands of the fired
rules, the draws and the schedule, against the events and states recorded.
"""

import itertools
import math

from . import canon, ref
from .oracles import Violation
from .timeline import rt

TOL = 5.5e-5


def near(a, b):
    return abs(a - b) <= TOL


def horizon(T):
    """Everything before this moment has surely happened."""
    if not T.steps:
        return -math.inf
    if T.rec.rest and T.rec.end != "error":
        return math.inf
    return T.steps[-1].t - TOL


# ---------------------------------------------------------------- C11

class Command:
    def __init__(self, cyc, key, start):
        self.cyc, self.key, self.start = cyc, key, start
        self.prepared = None      # event PREPARATION COMPLETE
        self.prep = []            # possible preparation times
        self.begin = self.init = self.press = self.finish = None


def motor(T):
    """(commands, problem): the motor module as the commands of the fired rules call for it."""
    if hasattr(T, "_motor"):
        return T._motor
    T._motor = _motor(T)
    return T._motor


def _motor(T):
    asked = []
    for c in T.cycles:
        r = T.rules.get(c.rule) if c.fired else None
        if c.fired and r is None:
            return None, None
        if r is None:
            continue
        for code, buf, typ, slots in r.actions:
            if code == "+" and T.kind_of(buf) == "manual":
                keys = set()
                for b in c.binds:
                    try:
                        keys.add(str(ref.resolve(slots, b).get("key")).upper())
                    except (KeyError, ValueError):
                        keys.add(None)
                if len(keys) != 1:
                    return None, None
                asked.append((c, keys.pop()))
    events = [e for e in T.events if e.proc == "manual"]
    end = horizon(T)
    cmds = []
    todo = list(asked)
    for e in events:
        if e.action.startswith("COMMAND"):
            fit = [x for x in todo if x[0].end.k < e.k and near(x[0].t_end, e.stamp)]
            if not fit:
                return cmds, ("stray", "a motor command starts at %s without a rule calling for it" % e.stamp, e.k)
            todo.remove(fit[-1])
            cmds.append(Command(fit[-1][0], fit[-1][1], e))
        elif e.action == "PREPARATION COMPLETE":
            if not cmds or cmds[-1].prepared is not None:
                return cmds, ("preparation", "preparation ends at %s, but no command is being prepared" % e.stamp, e.k)
            cmds[-1].prepared = e
    for c, key in todo:
        if c.t_end < end and not any(x is not c and x.t_end >= c.t_end and near(x.t_end, c.t_end) for x, _ in asked):
            return cmds, ("lost", "the command to press %s given at %s is never started" % (key, c.t_end), T.last_of_instant(c.end.k))
    # preparation
    last = {None}
    prepared = []
    for i, m in enumerate(cmds):
        nxt = cmds[i + 1].start if i + 1 < len(cmds) else None
        lasts = set()
        done = [x for x in cmds[:i] if x.prepared is not None]
        lasts.add(done[-1].key if done else None)
        if done and near(done[-1].prepared.stamp, m.start.stamp):
            lasts.add(done[-2].key if len(done) > 1 else None)
        m.prep = [ref.preparation_time(m.key, x, T.p["motor_prepared"] and x is None) for x in lasts]
        if m.prepared is not None:
            if not any(near(m.start.stamp + p, m.prepared.stamp) for p in m.prep):
                return cmds, ("preparation", "the preparation of key %s started at %s takes %.4f, not %s" % (
                    m.key, m.start.stamp, m.prepared.stamp - m.start.stamp, " or ".join("%.4f" % p for p in m.prep)), m.prepared.k)
            prepared.append(m)
        else:
            due = m.start.stamp + max(m.prep)
            limit = nxt.stamp if nxt is not None else end
            if due < limit - TOL and due < end:
                return cmds, ("lost", "the command to press %s at %s is not prepared by %.4f, although nothing replaces it" % (m.key, m.start.stamp, due), T.last_of_instant(m.start.k))
    # movements, one after the other
    free = -math.inf
    for m in prepared:
        m.begin = max(m.prepared.stamp, free)
        _, ini, exe, fin = ref.press_times(m.key)
        m.init, m.press = m.begin + ini, m.begin + ini + exe
        m.finish = free = m.press + fin
    for what, attr in (("INITIATION COMPLETE", "init"), ("KEY PRESSED", "press"), ("MOVEMENT FINISHED", "finish")):
        got = [e for e in events if e.action.startswith(what)]
        for n, m in enumerate(prepared):
            due = getattr(m, attr)
            if n >= len(got):
                if due < end:
                    return cmds, ("lost", "%s of key %s is due at %.4f but never happens" % (what, m.key, due), len(T.steps) - 1)
                continue
            e = got[n]
            if not near(due, e.stamp):
                return cmds, ("time", "%s of key %s happens at %s, due at %.4f" % (what, m.key, e.stamp, due), e.k)
            if attr == "press" and e.action.split(": ")[1] != m.key:
                return cmds, ("key", "key %s is pressed at %s, not %s" % (e.action.split(": ")[1], e.stamp, m.key), e.k)
        if len(got) > len(prepared):
            return cmds, ("extra", "%s at %s, but no command calls for it" % (got[len(prepared)].action, got[len(prepared)].stamp), got[len(prepared)].k)
    # order and overlap, from the events alone
    phase = 0
    for e in events:
        if e.action == "INITIATION COMPLETE":
            if phase:
                return cmds, ("overlap", "a movement is initiated at %s while another one is not finished" % e.stamp, e.k)
            phase = 1
        elif e.action == "MOVEMENT FINISHED":
            phase = 0
    return cmds, None


def c11(T):
    _, bad = motor(T)
    if bad:
        yield Violation("C11", bad[0], bad[1], T, bad[2])


# ---------------------------------------------------------------- C12

def triggers_of(env, n):
    out = []
    for t in env["triggers"]:
        if isinstance(t, str) and t.upper() == "SPACE":
            out.append({"SPACE"})
        else:
            out.append({x.upper() for x in t})
    return out * n if len(out) == 1 and n > 1 else out


def schedule(T):
    env = T.spec["env"]
    stim = T.rec.stimuli
    n = max(len(stim), len(env["triggers"]))
    if len(stim) == 1:
        stim = list(stim) * n
    times = list(env["times"])
    if len(times) == 1:
        times = times * n
    start = (T.rec.t0 or 0) + (env.get("start_time") or 0)
    ends, t = [], start
    for x in times:
        t += x
        ends.append(t)
    return stim, triggers_of(env, n), ends, start


def c12(T):
    if not T.spec.get("env"):
        return
    stim, trig, ends, start = schedule(T)
    n = len(stim)
    presses = {}
    for e in T.events:
        if e.proc == "manual" and e.action.startswith("KEY PRESSED: "):
            presses.setdefault(T.group[e.k], []).append(e.action.split(": ", 1)[1])
    poss = {-1}
    for g in range(T.ngroups):
        lo, hi = T.groups[g]
        now = T.steps[lo].t
        if poss == {-1}:
            if now >= start - TOL:
                poss = {0} if now >= start + TOL else {-1, 0}
        # scheduled ends that have come
        keys = presses.get(g, [])
        nxt = set()
        for i in poss:
            reach = set()
            todo = [(i, tuple(keys))]
            seen = set()
            while todo:
                j, ks = todo.pop()
                if (j, ks) in seen:
                    continue
                seen.add((j, ks))
                sched = 0 <= j < n - 1 and ends[j] <= now + TOL
                over = 0 <= j < n - 1 and ends[j] < now - TOL
                if sched:
                    todo.append((j + 1, ks))
                if ks:
                    hit = 0 <= j and ks[0] in trig[j]
                    todo.append((j + 1 if hit and j < n - 1 else j, ks[1:]))
                elif not over and not (sched and T.complete(g)) or not T.complete(g):
                    reach.add(j)
            nxt |= reach
        if keys and not T.complete(g):
            nxt |= poss
        poss = nxt or poss
        shown = T.snap(hi).stim
        got = {-1} if shown is None else {i for i in range(n) if stim[i] == shown}
        if T.rec.end == "error" and g == T.ngroups - 1:
            return
        ok = poss & got
        if not ok:
            if -1 in poss and 0 in got and near(now, start):
                poss = {0}
                continue
            what = "nothing" if shown is None else "stimulus %s" % sorted(got) if got else "something unknown"
            yield Violation("C12", "screen", "at %s the screen shows %s; by the schedule and the keys pressed it has to be stimulus %s" % (rt(now), what, sorted(poss)), T, hi)
            return
        poss = ok


# ---------------------------------------------------------------- C13

SUPER = ("lowest", "highest", "closest", "onewayclosest")


def place(st):
    return (int(st["position"][0]), int(st["position"][1]))


CONTROL = ("text", "position", "vis_delay", "visual_location_typename", "visual_typename", "externally_visible")


def visible(st):
    """What can be seen of an element from afar, besides its position."""
    return {k: st[k] for k in st.get("externally_visible", ()) if k in st}


def located(content, st):
    """Is this the location chunk of an element?"""
    want = {"screen_x": str(place(st)[0]), "screen_y": str(place(st)[1])}
    want.update({k: str(v) for k, v in visible(st).items()})
    return {k: str(num(v)) for k, v in content[2] if v is not None} == want


def dist(a, b):
    return math.hypot(float(a[0]) - float(b[0]), float(a[1]) - float(b[1]))


def fitting(slots, stims, focus, allowed, negs=None):
    """Positions of the elements that a search may return; None if the request is beyond the reference."""
    cand = []
    best = []
    for s in ("screen_x", "screen_y"):
        v = slots.get(s)
        if v in SUPER:
            best.append((s, v))
    if len(best) > 1:
        return None
    for name, st in stims.items():
        if not allowed(st):
            continue
        v = slots.get("value")
        if v is not None and v != st.get("text"):
            continue
        p = place(st)
        seen = dict(visible(st), value=st.get("text"), screen_x=str(p[0]), screen_y=str(p[1]))
        if any(seen.get(k) in vs for k, vs in (negs or {}).items()):
            continue
        ok = True
        for s, x in (("screen_x", p[0]), ("screen_y", p[1])):
            w = slots.get(s)
            if w is None or w in SUPER:
                continue
            if w[0] == "<":
                ok = ok and x < int(w[1:])
            elif w[0] == ">":
                ok = ok and x > int(w[1:])
            else:
                ok = ok and x == int(w)
        # (a feature seen from afar must be asked for; not to be something else will do)
        ok = ok and all(slots.get(k) == v or k not in slots and k in (negs or {}) for k, v in visible(st).items())
        if ok:
            cand.append(p)
    if not cand or not best:
        return cand
    s, v = best[0]
    i = 0 if s == "screen_x" else 1
    if v == "lowest":
        f = lambda p: p[i]
    elif v == "highest":
        f = lambda p: -p[i]
    elif v == "closest":
        f = lambda p: dist(focus, p)
    else:
        f = lambda p: abs(float(focus[i]) - p[i])
    m = min(f(p) for p in cand)
    return [p for p in cand if f(p) <= m + 1e-9]


def freeze(st):
    return tuple(sorted((k, repr(v)) for k, v in st.items()))


def at(content):
    """Position told by a location chunk."""
    d = dict(content[2])
    try:
        return (int(float(num(d["screen_x"]))), int(float(num(d["screen_y"]))))
    except (KeyError, ValueError, TypeError):
        return None


def num(v):
    if isinstance(v, tuple) and v and v[0] == "!":
        return v[1].strip("'")
    return v


def c13(T):
    if not T.spec.get("env"):
        return
    buf = T.visloc
    vis = T.spec.get("vis") or {}
    finst = vis.get("finst", 4)
    auto = T.p["automatic_visual_search"]
    asked = {}
    for c in T.cycles:
        r = T.rules.get(c.rule) if c.fired else None
        if c.fired and r is None:
            return
        if r is None:
            continue
        test = None
        for a in r.rhs:
            if a[0] == "?" and a[1] == buf and a[3] and "attended" in a[3]:
                test = a[3]["attended"]
        for code, b, typ, slots in r.actions:
            if code == "+" and b == buf:
                last = max((e.k for e in T.events if near(e.stamp, c.t_end) and e.k >= c.end.k), default=c.end.k)
                asked.setdefault(T.group[last], []).append((c, slots, test))
    recents = {()}        # what may be remembered as attended (the last finst elements)

    def remember(options):
        if finst:
            new = {(r + (f,))[-finst:] if f is not None else r for r in recents for f in options}
            recents.clear()
            recents.update(new)

    def sure(f):
        return all(f in r for r in recents)

    def poss(f):
        return any(f in r for r in recents)

    end_error = T.rec.end == "error"
    evs = {}
    for e in T.events:
        if e.proc == buf and e.action.startswith("ENCODED LOCATION"):
            evs.setdefault(T.group[e.k], []).append(e)
    for g in range(T.ngroups):
        lo, hi = T.groups[g]
        last = g == T.ngroups - 1
        stims = []
        for i in range(max(-1, lo - 1), hi + 1):
            s = T.snap(i).stim
            if s is not None and not any(s is x for x in stims):
                stims.append(s)
        foci = []
        for i in range(max(-1, lo - 1), hi + 1):
            f = T.snap(i).focus
            if f not in foci:
                foci.append(f)
        screen = g in T.screens
        reqs = asked.get(g, [])
        mine = evs.get(g, [])
        if not reqs and not screen:
            for e in mine:
                yield Violation("C13", "stray", "%s at %s, without a request or a new screen" % (e.action, e.stamp), T, e.k)
                return
            continue
        if last and (end_error or not T.rec.rest):
            return
        # what may be found
        results = []
        for c, slots, test in reqs:
            for b in c.binds:
                try:
                    pat, loose = ref.request(slots, b)
                except KeyError:
                    continue
                if any(not isinstance(x, str) for _, neg in pat.values() for x in neg) or loose or (screen and auto and test is not None):
                    # (a tie of an automatic search and a search depending on what was attended is open)
                    results = None
                    break
                vals = {s: v for s, (v, neg) in pat.items() if v is not None}
                negs = {s: neg for s, (v, neg) in pat.items() if neg}
                for st in stims:
                    for f in foci:
                        if test is not None and finst:
                            want = str(test) == "True"
                            if any(poss(freeze(x)) != sure(freeze(x)) for x in st.values()):
                                results = None
                                break
                            allowed = lambda x: sure(freeze(x)) == want
                        else:
                            allowed = lambda x: True
                        got = fitting(vals, st, f, allowed, negs)
                        if got is None:
                            results = None
                            break
                        results.append((st, got))
                    if results is None:
                        break
                if results is None:
                    break
            if results is None:
                break
        autos = []
        shown = T.snap(lo - 1).stim is not T.snap(hi).stim and T.snap(hi).stim is not None
        if screen and auto:
            for st in stims:
                for f in foci:
                    xs = [x for x in st.values() if not sure(freeze(x))]
                    sx = [x for x in st.values() if not poss(freeze(x))]
                    m = min((dist(f, x["position"]) for x in xs), default=None)
                    m2 = min((dist(f, x["position"]) for x in sx), default=math.inf)
                    autos.append((st, [place(x) for x in xs if dist(f, x["position"]) <= m2 + 1e-9], bool(sx)))
        tested = []
        for e in mine:
            if e.action.endswith("None'") or e.action.endswith("None"):
                tested.append((e, None))
                continue
            content = T.snap(e.k).bufs.get(buf) or next((s.bufs[buf] for s in reversed(T.window(lo, e.k)) if s.bufs.get(buf)), ())
            tested.append((e, at(content[0]) if content else None))
        hits = 0
        for e, pos in tested:
            byreq = results is None or any(pos in got if pos is not None else not got for _, got in results)
            byauto = screen and auto and pos is not None and any(pos in xs for _, xs, _ in autos)
            if pos is None and not reqs or pos is None and not byreq:
                yield Violation("C13", "missed", "the search of %s fails at %s, although there is something to find at %s" % (
                    [c.rule for c, _, _ in reqs], e.stamp, sorted({p for _, got in results or () for p in got})), T, e.k)
                return
            if reqs and byreq and not screen:
                hits += 1
            elif not (reqs and byreq) and not byauto:
                if reqs:
                    yield Violation("C13", "found", "the search of %s at %s finds %s, not one of %s" % ([c.rule for c, _, _ in reqs], e.stamp, pos, sorted({p for _, got in results or () for p in got})), T, e.k)
                else:
                    yield Violation("C13", "automatic", "automatic search at %s finds %s, not one of %s" % (e.stamp, pos, sorted({p for _, xs, _ in autos for p in xs})), T, e.k)
                return
            # which element was it?
            if pos is not None:
                content = T.snap(e.k).bufs.get(buf)
                if content and not any(located(content[0], x) for st in stims for x in st.values() if place(x) == pos):
                    yield Violation("C13", "content", "the search ends at %s with %s, which is not what can be seen there" % (e.stamp, canon.text(content[0])), T, e.k)
                    return
                opts = {freeze(x) for st in stims for x in st.values() if place(x) == pos}
                remember(opts)
        if reqs and not screen and hits == 0 and not mine:
            yield Violation("C13", "no answer", "the search of %s at %s is not answered" % ([c.rule for c, _, _ in reqs], rt(T.steps[lo].t)), T, hi)
            return
        if screen and not reqs:
            if not mine and auto and shown and all(sx for _, _, sx in autos) and len(stims) and T.snap(hi).stim is not None:
                now = [a for a in autos if a[0] is T.snap(hi).stim]
                if now and all(sx for _, _, sx in now):
                    yield Violation("C13", "automatic", "automatic search does not notice the new screen at %s" % rt(T.steps[hi].t), T, hi)
                    return
        if screen and reqs:
            # an automatic search that was cut short may have left its trace
            a, b = T.snap(lo - 1).bufs.get(buf), T.snap(hi).bufs.get(buf)
            n = len({T.snap(i).bufs.get(buf) for i in range(lo, hi + 1)})
            if n > 1 or a != b:
                remember({None} | {freeze(x) for st in stims for x in st.values()})
                if finst > 1:
                    remember({None} | {freeze(x) for st in stims for x in st.values()})
                if len(recents) > 20000:
                    return


# ---------------------------------------------------------------- C14

class Shift:
    def __init__(self, cyc, start, pos, st):
        self.cyc, self.start, self.pos, self.st = cyc, start, pos, st
        self.t0 = start.stamp
        self.enc = self.prep = self.exe = None
        self.site = None
        self.prepared = None
        self.stage_end = None
        self.goes_on = None       # True, False, None (unknown)
        self.begin = self.finish = None
        self.encode = None        # when it is encoded
        self.encoded = None
        self.gone = None


def gammas(T, lo, hi):
    """[(step, [(kind, args, value)])] of the draws made in steps lo..hi."""
    out = {}
    for step, kind, args, val in T.rec.draws.log:
        if lo <= step <= hi and kind in ("gamma", "mvn"):
            out.setdefault(step, []).append((kind, args, val))
    return [out[s] for s in sorted(out)]


def emma(T, focus, st):
    """Means of encoding and execution for an element seen from focus."""
    env = T.spec["env"]
    size = env.get("size") or [640, 360]
    angle = ref.visual_angle(focus, place(st), size, env.get("simulated_screen_size") or [50, 28], env.get("viewing_distance") or 50)
    d = st.get("vis_delay")
    enc = T.pvis["eye_mvt_scaling_parameter"] * float(d) * math.exp(T.pvis["eye_mvt_angle_parameter"] * angle) if d else 0.0
    return enc, 0.07 + 0.002 * (180 * angle / math.pi), 180 * angle / math.pi


def times(T, lo, hi, foci, st):
    """Possible (encoding, preparation, execution, landing) of a shift to st whose draws were made in steps lo..hi; [] if no draws fit."""
    out = []
    pos = place(st)
    if not T.pvis["emma"]:
        return [(0.085, 0.0, 0.085, pos)]
    batches = gammas(T, lo, hi)
    for f in foci:
        enc, exe, deg = emma(T, f, st)
        noisy = T.pvis["emma_landing_site_noise"] and deg
        if T.pvis["emma_noise"]:
            for b in batches:
                g = [x for x in b if x[0] == "gamma"]
                n = [x for x in b if x[0] == "mvn"]
                for i in range(len(g) - 2):
                    if all(abs(g[i + j][1][1] * 9 - m) < 1e-9 for j, m in enumerate((enc, 0.135, exe))):
                        site = n[-1][2] if noisy and n else pos
                        out.append((g[i][2], g[i + 1][2], g[i + 2][2], site))
        else:
            sites = [x[2] for b in batches for x in b if x[0] == "mvn"] if noisy else [pos]
            for site in sites:
                out.append((enc, 0.135, exe, site))
    return out


def vision(T):
    """(shifts, problem)"""
    if not hasattr(T, "_vision"):
        # whether a new screen cut a shift off before its first stage ended is not always visible: any consistent reading counts
        guesses = []
        T._vision = first = _vision(T, guesses)
        if first[1]:
            for reading in itertools.islice(itertools.product((True, False), repeat=len(guesses)), 64):
                if list(reading) != guesses:
                    other = _vision(T, list(reading))
                    if not other[1]:
                        T._vision = other
                        break
    return T._vision


def window_of(T, k, attr):
    """Values of an attribute of the state during the instant of step k, up to k."""
    out = []
    for i in range(max(-1, T.first_of_instant(k) - 1), k + 1):
        v = getattr(T.snap(i), attr)
        if v is not None and not any(v is x or v == x for x in out):
            out.append(v)
    return out


def _vision(T, guesses):
    """guesses: for each shift for which that is not known, whether it went on to its second stage (extended with the likely answers)"""
    asked_for = 0
    if not T.spec.get("env"):
        return [], None
    buf = T.visual
    asked = []
    for c in T.cycles:
        r = T.rules.get(c.rule) if c.fired else None
        if c.fired and r is None:
            return None, None
        if r is None:
            continue
        for code, b, typ, slots in r.actions:
            if code == "+" and b == buf:
                opts = []
                for bd in c.binds:
                    try:
                        v = ref.resolve(slots, bd)
                    except (KeyError, ValueError):
                        continue
                    o = (v.get("cmd"), at(v["screen_pos"]) if isinstance(v.get("screen_pos"), tuple) else None)
                    if o not in opts:
                        opts.append(o)
                if len(opts) != 1:
                    return None, None
                asked.append((c, opts[0][0], opts[0][1]))
    events = [e for e in T.events if e.proc == buf]
    end = horizon(T)
    shifts, shown, fails, stops = [], [], [], []
    todo = [x for x in asked if x[1] == "move_attention"]
    causes = [(c.t_end, "request", c) for c, _, _ in asked]
    for g in T.screens:
        causes.append((T.steps[T.groups[g][0]].t, "screen", None))
    for e in events:
        if e.action.startswith("PREPARATION TO SHIFT VISUAL ATTENTION STARTED") or e.action == "NO VISUAL OBJECT TO SHIFT ATTENTION TO":
            fit = [x for x in todo if x[0].end.k < e.k and near(x[0].t_end, e.stamp)]
            if not fit:
                return shifts, ("stray", "%s: %s, but no rule calls for it" % (buf, e.action), e.k)
            c, _, pos = fit[-1]
            todo.remove(fit[-1])
            stims = window_of(T, e.k, "stim")
            els = [x for s in stims for x in s.values() if place(x) == pos]
            if e.action.startswith("NO"):
                if stims and all(any(place(x) == pos for x in s.values()) for s in stims):
                    return shifts, ("object", "no object is said to be at %s at %s, but there is one" % (pos, e.stamp), e.k)
                continue
            if not els:
                return shifts, ("object", "attention shifts to %s at %s, but nothing is there" % (pos, e.stamp), e.k)
            shifts.append(Shift(c, e, pos, els))
        elif e.action == "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED":
            if not shifts or shifts[-1].prepared is not None:
                return shifts, ("preparation", "a preparation is completed at %s, but none is going on" % e.stamp, e.k)
            shifts[-1].prepared = e
    for c, _, pos in todo:
        late = [t for t, kind, c2 in causes if c2 is not c and near(t, c.t_end)]
        if c.t_end < end and not late:
            return shifts, ("lost", "the shift of attention requested at %s never starts" % c.t_end, T.last_of_instant(c.end.k))
    landed = [e for e in events if e.action.startswith("SHIFT COMPLETE")]
    encoded = [e for e in events if e.action.startswith("ENCODED VIS OBJECT")]
    nothing = [e for e in events if e.action == "NO VISUAL OBJECT TO ENCODE"]
    used = set()
    last_mvt = -math.inf
    order = []
    for i, s in enumerate(shifts):
        if near(s.t0, end) or s.t0 > end:
            break
        lo = s.cyc.end.k + 1
        foci = window_of(T, s.start.k, "focus")
        poss = []
        for el in s.st:
            for x in times(T, T.steps[s.cyc.end.k].i, T.steps[s.start.k].i, foci, el):
                if x + (el,) not in poss:
                    poss.append(x + (el,))
        if not poss:
            return shifts, ("draws", "the times of the shift to %s at %s are not drawn for the distance from %s" % (s.pos, s.t0, foci), s.start.k)
        if s.prepared is not None and len(poss) > 1:
            fit = [x for x in poss if near(s.t0 + x[1], s.prepared.stamp)]
            poss = fit or poss
        s.enc, s.prep, s.exe, s.site, s.el = poss[0]
        if len(poss) > 1:
            # several readings (a tie at the very instant): not judged further
            s.unknown = True
            return shifts, None
        tprep = s.t0 + s.prep
        if s.prep < s.enc <= s.prep + s.exe:
            s.stage_end = s.t0 + s.enc
        else:
            s.stage_end = tprep
        mine = [(t, kind) for t, kind, c2 in causes if c2 is not s.cyc and t >= s.t0 - TOL and (kind == "screen" or c2.end.k > s.cyc.end.k)]
        before_prep = [x for x in mine if x[0] <= tprep + TOL]
        if s.prepared is not None:
            if not near(tprep, s.prepared.stamp):
                return shifts, ("preparation", "the preparation of the shift at %s takes %.4f, not %.4f" % (s.t0, s.prepared.stamp - s.t0, s.prep), s.prepared.k)
            if any(kind == "request" and t < tprep - TOL for t, kind in mine):
                return shifts, ("replaced", "the shift at %s was replaced before its preparation was over, but goes on" % s.t0, s.prepared.k)
        elif tprep < end and not before_prep:
            return shifts, ("lost", "the preparation of the shift at %s, due at %.4f, is never completed" % (s.t0, tprep), T.last_of_instant(s.start.k))
        # encoding in the first stage
        if s.enc <= s.prep + s.exe:
            t = s.t0 + s.enc
            cut = [x for x in mine if x[0] <= t + TOL]
            certain_cut = any(kind == "request" and x < t - TOL for x, kind in mine)
            hit = [e for e in encoded if e.k not in used and e.k > s.start.k and near(e.stamp, t) and shows(T, e, buf, s)]
            if hit and not certain_cut:
                used.add(hit[0].k)
                s.encoded = hit[0]
            elif t < end and not cut:
                return shifts, ("encoding", "the object at %s, attended at %s, should be encoded at %.4f" % (s.pos, s.t0, t), T.last_of_instant(s.start.k))
            s.encode = t
        # second stage
        if s.enc <= s.prep or s.enc > s.prep + s.exe:
            s.goes_on = s.prepared is not None
        else:
            certain_cut = any(kind == "request" and x < s.stage_end - TOL for x, kind in mine)
            if s.prepared is None or certain_cut:
                s.goes_on = False
            elif s.encoded is not None:
                s.goes_on = True
            else:
                s.goes_on = None
        begin = max(tprep, last_mvt)
        fin = begin + s.exe
        if s.goes_on is None:
            if asked_for == len(guesses):
                guesses.append(any(near(e.stamp, fin) and e.k > s.start.k for e in landed))
            s.goes_on = guesses[asked_for]
            asked_for += 1
        if s.goes_on and s.stage_end < end:
            s.begin, s.finish = begin, fin
            last_mvt = fin
            order.append(s)
    for n, s in enumerate(order):
        if n >= len(landed):
            if s.finish < end:
                return shifts, ("lost", "the eye movement to %s is due to end at %.4f but never does" % (s.pos, s.finish), len(T.steps) - 1)
            break
        e = landed[n]
        if not near(e.stamp, s.finish):
            return shifts, ("movement", "the eye movement to %s ends at %s, due at %.4f" % (s.pos, e.stamp, s.finish), e.k)
        want = (int(s.site[0]), int(s.site[1]))
        foci = [tuple(int(x) for x in f) for f in window_of(T, e.k, "focus")]
        if want not in foci:
            return shifts, ("landing", "the eye lands at %s at %s, not at %s" % (foci[-1], e.stamp, want), e.k)
        s.landed = e
        # the rest of a long encoding
        if s.enc > s.prep + s.exe:
            stims = window_of(T, e.k, "stim")
            hits = [x for x in nothing if near(x.stamp, s.finish)]
            there = [any(place(x) == s.pos for x in st.values()) for st in stims]
            if hits:
                if all(there):
                    return shifts, ("object", "the object at %s is said to be gone at %s, but it is there" % (s.pos, hits[0].stamp), hits[0].k)
                s.gone = hits[0]
                continue
            if not any(there):
                if s.finish < end:
                    return shifts, ("object", "nothing is at %s at %s, but the shift does not fail" % (s.pos, rt(s.finish)), e.k)
                continue
            els = [x for st in stims for x in st.values() if place(x) == s.pos]
            lo = T.steps[T.first_of_instant(e.k)].i
            hi = T.steps[T.last_of_instant(e.k)].i
            dues = []
            for el in els:
                for enc2, _, _, _ in times(T, lo, hi, window_of(T, e.k, "focus"), el):
                    dues.append(s.finish + (1 - (s.prep + s.exe) / s.enc) * enc2)
            if not dues:
                return shifts, ("draws", "the time left to encode %s at %s is not drawn for the distance" % (s.pos, rt(s.finish)), e.k)
            s.encode = min(dues)
            hit = [x for x in encoded if x.k not in used and any(near(x.stamp, d) for d in dues) and shows(T, x, buf, s)]
            if hit:
                used.add(hit[0].k)
                s.encoded = hit[0]
            elif max(dues) < end:
                return shifts, ("encoding", "the object at %s, attended at %s, should be encoded at %s" % (s.pos, s.t0, " or ".join("%.4f" % d for d in dues)), e.k)
    if len(landed) > len(order):
        e = landed[len(order)]
        if e.stamp < end:
            return shifts, ("movement", "an eye movement ends at %s, but no shift calls for it" % e.stamp, e.k)
    for e in encoded:
        if e.k not in used and e.stamp < end:
            return shifts, ("encoding", "%s at %s, but no shift of attention calls for it" % (e.action, e.stamp), e.k)
    return shifts, None


def shows(T, e, buf, s):
    """Did an ENCODED event bring the object of this shift into the buffer?"""
    for x in T.window(max(-1, T.first_of_instant(e.k) - 1), e.k):
        c = x.bufs.get(buf)
        if not c:
            continue
        d = dict(c[0][2])
        if isinstance(d.get("screen_pos"), tuple) and at(d["screen_pos"]) == (int(s.pos[0]), int(s.pos[1])) and str(d.get("value", "")) == str(s.el.get("text", "")):
            rest = {k: str(num(v)) for k, v in d.items() if v is not None and k not in ("screen_pos", "value", "cmd")}
            if rest == {k: str(v) for k, v in s.el.items() if k not in CONTROL}:
                return True
    return False


def c14(T):
    _, bad = vision(T)
    if bad:
        yield Violation("C14", bad[0], bad[1], T, bad[2])
    else:
        yield from buffering(T)


def contents_shown(content, el):
    """Is this (canonical) chunk the object el, as encoded without a request?"""
    d = dict(content[2])
    rest = {k: str(num(v)) for k, v in d.items() if v is not None and k not in ("screen_pos", "value", "cmd")}
    return str(d.get("value") or "") == str(el.get("text", "")) and rest == {k: str(v) for k, v in el.items() if k not in CONTROL}


def buffering(T):
    """What a new screen shows in the fovea is encoded without a request."""
    shifts, bad = vision(T)
    if bad or shifts is None or not T.spec.get("env"):
        return
    buf = T.visual
    env = T.spec["env"]
    size, screen = env.get("size") or [640, 360], env.get("simulated_screen_size") or [50, 28]
    fovea = size[0] / screen[0] * math.tan(math.pi / 180) * (env.get("viewing_distance") or 50)
    acts = []
    for c in T.cycles:
        r = T.rules.get(c.rule) if c.fired else None
        if c.fired and r is None:
            return
        if r is not None and (any(a[1] == buf for a in r.actions) or any(x[1] == buf for x in r.lhs)):
            acts.append((c.t_end, any(a[0] == "+" and a[1] == buf for a in r.actions)))
    autos = [e for e in T.events if e.proc == buf and e.action.startswith("AUTOMATIC BUFFERING")]
    stops = [e.k for e in T.events if e.proc == buf and e.action.startswith("VISUAL STOPPED FROM AUTOMATIC BUFFERING")]
    ons = [e.k for e in T.events if e.proc == buf and e.action.startswith("SHIFT COMPLETE")]
    others = [e.k for e in T.events if e.proc == buf and e.action.startswith(("ENCODED VIS OBJECT", "NO VISUAL OBJECT TO ENCODE"))]

    def stopped(lo, hi):
        """Was automatic buffering turned off (by the command clear, until a shift of attention is over)? None: not known"""
        if any(lo <= k <= hi for k in stops + ons + others):
            return None
        k = max([k for k in stops if k < lo], default=-1)
        if k <= max([x for x in ons if x < lo], default=-1):
            return False
        return None if any(k < x < lo for x in others) else True
    new = {T.group[i] for i in range(len(T.steps)) if T.snap(i).stim is not T.snap(i - 1).stim}
    screens = sorted(T.screens)
    end = horizon(T)

    def dues(g, focus, el):
        """Moments at which the object could be encoded."""
        t = T.steps[T.groups[g][0]].t
        d = el.get("vis_delay")
        angle = 2 * ref.visual_angle(focus, el["position"], size, screen, env.get("viewing_distance") or 50)
        enc = T.pvis["eye_mvt_scaling_parameter"] * float(d) * math.exp(T.pvis["eye_mvt_angle_parameter"] * angle) if d else 0.0
        if not T.pvis["emma_noise"]:
            return [t + enc]
        lo, hi = T.groups[g]
        return [t + val for step, kind, args, val in T.rec.draws.log
                if kind == "gamma" and T.steps[lo].i <= step <= T.steps[hi].i and abs(args[1] * 9 - enc) < 1e-9]

    def off(focus, el):
        return max(abs(float(el["position"][i]) - focus[i]) for i in (0, 1))

    for e in autos:
        earlier = [g for g in screens if T.steps[T.groups[g][0]].t < e.stamp - TOL]
        gs = earlier[max([i for i, g in enumerate(earlier) if g in new], default=0):] + [g for g in screens if near(T.steps[T.groups[g][0]].t, e.stamp)]
        ok = late = False
        for g in gs:
            lo, hi = T.groups[g]
            t = T.steps[lo].t
            if stopped(lo, hi):
                continue
            if any(plus and t + TOL < x < e.stamp - TOL for x, plus in acts):
                late = True
                continue
            for i in range(lo, min(hi, e.k) + 1):
                s = T.snap(i)
                for el in (s.stim or {}).values():
                    for f in window_of(T, i, "focus"):
                        if any(off(x, el) <= fovea + 0.01 for x in window_of(T, i, "attn")) and any(near(d, e.stamp) for d in dues(g, f, el)):
                            ok = ok or any(x.bufs.get(buf) and contents_shown(x.bufs[buf][0], el) for x in T.window(max(-1, T.first_of_instant(e.k) - 1), T.last_of_instant(e.k)))
        if not ok and e.stamp < end:
            yield Violation("C14", "automatic", "%s at %s, but %s" % (e.action, e.stamp, "another shift of attention was requested meanwhile" if late else "no object in the fovea is due then"), T, e.k)
            return
    for n, g in enumerate(screens):
        lo, hi = T.groups[g]
        t = T.steps[lo].t
        if t >= end or stopped(lo, hi) is not False or not T.complete(g) or sum(1 for i in range(lo, hi + 1) if T.snap(i).stim is not T.snap(i - 1).stim) != 1:
            continue
        before = T.snap(lo - 1)
        if any(x not in ("free", "error", None) for x in before.states.get(buf, ())):
            continue
        if any(s.t0 < t + TOL and (s.enc is None or max(s.t0 + s.prep + s.exe + s.enc, s.finish or 0, s.encode or 0) > t - TOL or s.enc > s.prep + s.exe and s.goes_on and s.encoded is None and s.gone is None) for s in shifts):
            continue
        focus, attn, old = before.focus, before.attn, before.bufs.get(buf, ())
        stim = T.snap(hi).stim
        if focus is None or attn is None or any(T.snap(i).focus != focus or T.snap(i).attn != attn for i in range(lo, hi + 1)) or any(abs(off(attn, el) - fovea) < 0.01 for el in stim.values()):
            continue
        els = [el for el in stim.values() if off(attn, el) < fovea and (not old or str(dict(old[0][2]).get("value") or "") != str(el.get("text", "")))]
        if not els or any(abs(x - t) <= TOL for x, _ in acts):
            continue
        ds = [d for el in els for d in dues(g, focus, el)]
        if ds:
            last = max(ds)
            if last >= end or any(t - TOL <= x <= last + TOL for x, _ in acts) or any(T.steps[T.groups[h][0]].t <= last + TOL for h in screens[n + 1:]):
                continue
            if any(near(e.stamp, d) for e in autos for d in ds):
                T.buffered = getattr(T, "buffered", 0) + 1
                continue
        yield Violation("C14", "automatic", "the object %s appears in the fovea at %s but is not encoded" % (els[-1].get("text", ""), rt(t)), T, hi)
        return
