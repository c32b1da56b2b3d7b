"""
C08, C09, C10: every retrieval against the reference outcome, computed from the state in which it started.

A request's possible outcomes are (chunk or nothing, moment of delivery).  They are computed from the snapshot before the step
in which START RETRIEVAL is reported, the bindings of the rule that fired, and the noise drawn in that very step.
"""

import itertools
import math

from . import canon, ref
from .oracles import Violation
from .timeline import rt

TOL = 1e-6
STAMP = 1.1e-4


class Request:
    def __init__(self, cyc, buf, slots, test):
        self.cyc, self.buf, self.slots, self.test = cyc, buf, slots, test
        self.t = cyc.t_end
        self.start = None        # event START RETRIEVAL
        self.outcomes = None     # [(chunk or None, due)]; None: cannot be told
        self.delivered = []
        self.bad_noise = None


class Maybe:
    """What a request added to the recently retrieved chunks: one of these."""

    def __init__(self, options):
        self.options = options


def sims_of(T):
    out = {}
    for a, b, v in T.spec.get("similarities", ()):
        x, y = ref.untyped(T.names.val(a)), ref.untyped(T.names.val(b))
        out[(x, y)] = v
        out[(y, x)] = v
    return out


def activations_of(T, dmi):
    out = []
    for i, ch, a in T.spec.get("activations", ()):
        if i == dmi:
            out.append((T.names.chunk(ch), a))
    return out


def excluded(chunk, recent, test, finst):
    """True, False, or None when it cannot be told."""
    if test is None or not finst:
        return False
    want = str(test) == "True"
    sure = any(len(m.options) == 1 and m.options[0] is not None and ref.same(m.options[0], chunk) for m in recent)
    poss = any(o is not None and ref.same(o, chunk) for m in recent for o in m.options)
    if sure:
        return not want
    if not poss:
        return want
    return None


def outcomes(T, req, recent, finst, draws, sims):
    k = req.start.k
    s = T.snap(k - 1)
    now = req.start.stamp
    dmi = T.retrievals[req.buf].get("dm") or 0
    dm = s.dms[dmi]
    chunks = [c for c, _ in dm]
    p = dict(T.p, **T.retrievals[req.buf].get("params", {}))
    acts = activations_of(T, dmi)
    res, seen_fit = [], False
    ambiguous = False
    for b in req.cyc.binds:
        try:
            pat, loose = ref.request(req.slots, b)
        except KeyError:
            return None
        pats = [pat]
        if loose:
            # a variable bound to nothing: either no constraint, or an empty slot
            for n in range(1, len(loose) + 1):
                for some in itertools.combinations(loose, n):
                    strict = dict(pat)
                    for x in some:
                        strict[x] = (ref.EMPTY, strict[x][1])
                    pats.append(strict)
                    if any(b[req.slots[x][1]] == "" for x in some):
                        pats.append(dict(strict, **{x: ("", strict[x][1]) for x in some if b[req.slots[x][1]] == ""}))
        for pt in pats:
            if not p["subsymbolic"]:
                found = False
                for c, traces in dm:
                    ex = excluded(c, recent, req.test, finst)
                    if ex is None:
                        ambiguous = True
                        continue
                    if ex or not ref.fits(pt, c) or abs(traces[0] - now) < 5e-5:
                        continue
                    found = True
                    res.append((c, now))
                if not found:
                    res.append((None, now + p["rule_firing"]))
                seen_fit = True
                continue
            cand = []
            for c, traces in dm:
                ex = excluded(c, recent, req.test, finst)
                if ex is None:
                    ambiguous = True
                    continue
                if ex:
                    continue
                pm = 0.0
                if p["partial_matching"]:
                    pm = ref.mismatch(pt, c, p["mismatch_penalty"], sims)
                elif not ref.fits(pt, c):
                    continue
                a = [x for ch, x in acts if ref.same(ch, c)]
                bl = ref.base_level(now, traces, p, a[-1] if a else None)
                if bl is None:
                    continue
                sp = ref.spreading(c, s.bufs, chunks, p) if p["buffer_spreading_activation"] else 0.0
                cand.append((c, [x + sp + pm for x in bl]))
            if p["instantaneous_noise"]:
                if len(draws) != len(cand):
                    req.bad_noise = (len(draws), len(cand))
                    continue
                cand = [(c, [x + d for x in xs]) for (c, xs), d in zip(cand, draws)]
            seen_fit = True
            best = max((min(xs) for _, xs in cand), default=-math.inf)
            th = p["retrieval_threshold"]
            for c, xs in cand:
                for x in xs:
                    if x >= best - TOL and x >= th - TOL:
                        res.append((c, now + p["latency_factor"] * safe_exp(-p["latency_exponent"] * x)))
            if best < th + TOL:
                res.append((None, now + p["latency_factor"] * safe_exp(-p["latency_exponent"] * th)))
    if ambiguous:
        return None
    if not seen_fit:
        return []
    return res


def safe_exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def requests(T):
    """All retrieval requests with their starts, outcomes and deliveries; and events that belong to none."""
    if hasattr(T, "_retrievals"):
        return T._retrievals
    sims = sims_of(T)
    out, stray = {}, []
    drawn = {}
    for step, kind, args, val in T.rec.draws.log:
        if kind == "logistic" and abs(args[1] - T.p["instantaneous_noise"]) < 1e-12:
            drawn.setdefault(step, []).append(val)
    for buf, r in T.retrievals.items():
        todo = []
        for c in T.cycles:
            rule = T.rules.get(c.rule) if c.fired else None
            if rule is None:
                continue
            test = None
            for a in rule.rhs:
                if a[0] == "?" and a[1] == buf and a[3] and "recently_retrieved" in a[3]:
                    test = a[3]["recently_retrieved"]
            for code, b, typ, slots in rule.actions:
                if code == "+" and b == buf:
                    todo.append(Request(c, buf, slots, test))
        unknown = any(c.fired and c.rule not in T.rules for c in T.cycles)
        recent, finst = [], r.get("finst") or 0
        cur = None
        mine = []
        for e in T.events:
            if e.proc != buf:
                continue
            if e.action == "START RETRIEVAL":
                fit = [q for q in todo if q.start is None and q.cyc.end.k < e.k and abs(q.t - e.stamp) <= STAMP]
                if not fit:
                    if not unknown:
                        stray.append((buf, e))
                    cur = None
                    continue
                if cur is not None:
                    finish(cur, recent, finst)
                cur = fit[-1]
                cur.start = e
                mine.append(cur)
                if cur.cyc.binds:
                    cur.outcomes = outcomes(T, cur, recent, finst, drawn.get(T.steps[e.k].i, []), sims)
            elif e.action.startswith("RETRIEVED: "):
                if cur is None:
                    if not unknown:
                        stray.append((buf, e))
                else:
                    cur.delivered.append(e)
                    if cur.delivered[1:]:
                        continue
                    cur.got = delivered(T, buf, e)
        out[buf] = (todo, mine)
    T._retrievals = (out, stray)
    return T._retrievals


def finish(q, recent, finst):
    """After a request: what it added to the recently retrieved chunks."""
    if not finst:
        return
    if q.delivered:
        recent.append(Maybe([q.got]))
    elif q.outcomes:
        opts = []
        for c, _ in q.outcomes:
            if c not in opts:
                opts.append(c)
        recent.append(Maybe(opts))
    else:
        recent.append(Maybe([None, None]))
    del recent[:-finst]


def delivered(T, buf, e):
    """The chunk that a RETRIEVED event delivered (None: failure): what the buffer got since the CLEARED before it."""
    if e.action == "RETRIEVED: None":
        return None
    lo = e.k
    for x in reversed([x for x in T.events if x.proc == buf and x.k < e.k]):
        if x.action == "CLEARED":
            lo = x.k
        break
    for s in reversed(T.window(lo, e.k)):
        if s.bufs.get(buf):
            return s.bufs[buf][0]
    return ("?", e.action)


def describe(o):
    return ", ".join("%s at %.4f" % (canon.text(c) if c else "nothing", d) for c, d in o[:4])


def judge(T):
    """[(property, kind, message, step)]"""
    reqs, stray = requests(T)
    out = []
    last = T.steps[-1].t if T.steps else 0
    for buf, e in stray:
        out.append(("C10", "stray", "%s: %s, but no request of a fired rule calls for it" % (buf, e.action), e.k))
    for buf, (todo, mine) in reqs.items():
        for q in todo:
            if q.start is None and q.t < last - 1e-4 and not any(o is not q and o.t <= q.t + STAMP and o.cyc.end.k > q.cyc.end.k for o in todo):
                out.append(("C10", "not-started", "the request of %s at %s to %s never starts" % (q.cyc.rule, q.t, buf), T.last_of_instant(q.cyc.end.k)))
        for n, q in enumerate(mine):
            nxt = mine[n + 1].start if n + 1 < len(mine) else None
            # the next request replaces it from the moment its rule fires
            end = mine[n + 1].t if nxt is not None else None
            if q.bad_noise and q.outcomes == []:
                out.append(("C08", "candidates", "%s: noise is drawn for %d candidates, not %d" % ((buf,) + q.bad_noise), q.start.k))
                continue
            if len(q.delivered) > 1:
                out.append(("C10", "twice", "the request to %s at %s is answered %d times" % (buf, q.t, len(q.delivered)), q.delivered[1].k))
                continue
            if q.outcomes is None:
                continue
            if not q.delivered:
                limit = end if end is not None else last
                if T.rec.end == "error" or not T.rec.rest:
                    limit = min(limit, last - 1e-4)
                if all(rt(d) < limit - STAMP for _, d in q.outcomes) and (end is not None or T.rec.end != "error" or last > max(d for _, d in q.outcomes) + 1e-4):
                    out.append(("C10", "lost", "the request to %s at %s should deliver %s; it never does" % (buf, q.t, describe(q.outcomes)), q.start.k))
                continue
            e = q.delivered[0]
            prev = mine[n - 1] if n else None
            fit = [d for c, d in q.outcomes if (c is None) == (q.got is None) and (c is None or ref.same(c, q.got))]
            if any(abs(rt(d) - e.stamp) <= STAMP for d in fit):
                continue
            if prev is not None and not prev.delivered and prev.outcomes and any(
                    abs(rt(d) - e.stamp) <= STAMP and (c is None) == (q.got is None) and (c is None or ref.same(c, q.got)) for c, d in prev.outcomes):
                out.append(("C10", "superseded", "the request to %s at %s was replaced at %s, but delivers %s" % (buf, prev.t, q.t, canon.text(q.got) if q.got else "nothing"), e.k))
                continue
            if not fit:
                out.append(("C08", "chunk", "the request to %s at %s retrieves %s, not %s" % (buf, q.t, canon.text(q.got) if q.got else "nothing", describe(q.outcomes)), e.k))
            else:
                out.append(("C09", "time", "the retrieval of %s by %s requested at %s ends at %s, not at %s" % (
                    canon.text(q.got) if q.got else "nothing", buf, q.t, e.stamp, ", ".join("%.4f" % d for d in fit)), e.k))
                p = dict(T.p, **T.retrievals[buf].get("params", {}))
                if q.got is not None and p["subsymbolic"] and e.stamp - q.t > 10 * STAMP and p["latency_factor"] and p["latency_exponent"]:
                    # how long it takes tells the activation
                    told = [-math.log((x - q.t) / p["latency_factor"]) / p["latency_exponent"] for x in [e.stamp] + fit if x > q.t]
                    out.append(("C08", "activation", "%s is retrieved at %s as if its activation were %.3f, not %s" % (
                        canon.text(q.got), e.stamp, told[0], ", ".join("%.3f" % x for x in told[1:])), e.k))
    return out


def c08(T):
    for prop, kind, msg, k in judge(T):
        if prop == "C08":
            yield Violation("C08", kind, msg, T, k)
            return


def c09(T):
    for prop, kind, msg, k in judge(T):
        if prop == "C09":
            yield Violation("C09", kind, msg, T, k)
            return
    reqs, _ = requests(T)
    for buf, (todo, mine) in reqs.items():
        for q in mine:
            if len(q.delivered) != 1 or not q.cyc.binds:
                continue
            e = q.delivered[0]
            g = T.group[e.k]
            if not T.complete(g):
                continue
            hi = T.groups[g][1]
            if any(c.fired and T.group[c.end.k] == g or c.fired and abs(c.t_end - e.stamp) <= STAMP for c in T.cycles):
                continue      # a rule fires at the same instant: it may do something else with the buffer
            s = T.snap(hi)
            want = "error" if q.got is None else "free"
            if s.states[buf][0] != want:
                yield Violation("C09", "state", "after '%s' the module of %s is %s, not %s" % (e.action, buf, s.states[buf][0], want), T, hi)
                return
            if q.got is not None and s.bufs[buf] != (q.got,):
                yield Violation("C09", "buffer", "after '%s' the buffer %s holds %s" % (e.action, buf, canon.text(s.bufs[buf][0]) if s.bufs[buf] else "nothing"), T, hi)
                return
            # and so it stays until the next action on the buffer
            for i in range(hi + 1, len(T.steps)):
                if any(c.fired and c.end.k <= i and c.end.k > e.k and touches(T, c, buf) for c in T.cycles):
                    break
                s2 = T.snap(i)
                if s2 is s:
                    continue
                s = s2
                if s.states[buf][0] != want:
                    yield Violation("C09", "state", "the module of %s becomes %s after '%s', without a request or an action" % (buf, s.states[buf][0], e.action), T, i)
                    return
    

def touches(T, c, buf):
    r = T.rules.get(c.rule)
    if r is None:
        return True
    if any(a[1] == buf for a in r.rhs):
        return True
    return bool(T.p["strict_harvesting"] and any(x[0] == "=" and x[1] == buf for x in r.lhs))


def c10(T):
    for prop, kind, msg, k in judge(T):
        if prop == "C10":
            yield Violation("C10", kind, msg, T, k)
            return
