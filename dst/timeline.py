"""
What happened in a run: events, instants, production cycles, rule firings and the buffer operations they call for.

Built from the specification (what the rules say) and the recording (what was observed); never from pyactr's internals.
"""

from . import canon, ref

EPS = 1e-6
GROUP = 2e-5     # steps closer than this belong to one instant (stamps are multiples of a tenth of a millisecond)

INLINE, DEFERRED = "inline", "deferred"


def close(a, b, eps=EPS):
    return abs(a - b) <= eps


def rt(t):
    return round(t, 4)


class Ev:
    __slots__ = ("k", "t", "stamp", "proc", "action")

    def __init__(self, k, t, stamp, proc, action):
        self.k, self.t, self.stamp, self.proc, self.action = k, t, stamp, proc, action

    def __repr__(self):
        return "#%d %.6f (%s, %s, %s)" % (self.k, self.t, self.stamp, self.proc, self.action)


class Cycle:
    """One production cycle: conflict resolution, and what came of it."""

    def __init__(self, cr):
        self.cr = cr
        self.rule = None
        self.selected = None
        self.created = []
        self.end = None          # event FIRED or STOPPED
        self.fired = None        # True / False / None
        self.none = None         # event NO RULE FOUND
        self.binds = []          # possible bindings at firing
        self.t_end = None        # when its immediate actions are done


class Op:
    """An operation on a buffer that a fired rule calls for."""

    def __init__(self, kind, buf, t, due, cyc, code, typ=None, slots=None, mode=INLINE):
        self.kind, self.buf, self.t, self.due, self.cyc = kind, buf, t, due, cyc
        self.code, self.typ, self.slots, self.mode = code, typ, slots, mode
        self.done = False
        self.superseded = None     # time at which a later request replaced it
        self.maybe = False         # at the very instant it was due: either may happen
        self.killed_by_error = False

    def __repr__(self):
        return "%s%s@%s due %s" % (self.code, self.buf, self.t, self.due)


class Timeline:
    def __init__(self, spec, rec, model=None, bound=None):
        self.spec, self.rec = spec, rec
        self.p = ref.params_of(spec)
        self.pvis = dict(self.p, **(spec.get("vis") or {}).get("params", {}))      # the buffer's own settings
        self.names = ref.Names(spec)
        self.rules = ref.rules_of(spec, self.names)
        self.model = model
        if model is not None:
            self.add_compiled(model)
        self.steps = rec.steps
        self.initial = rec.initial
        self.goals = {g["name"]: float(g.get("delay") or 0) for g in spec.get("goals", [{"name": "g"}])}
        self.retrievals = {r["name"]: r for r in spec.get("retrievals", [{"name": "retrieval"}])}
        self.visual, self.visloc = None, None
        if spec.get("env"):
            self.visual, self.visloc = "visual", "visual_location"
            if spec.get("vis"):
                self.visual, self.visloc = spec["vis"]["visual"], spec["vis"]["visual_location"]
        self.events = []
        for idx, s in enumerate(self.steps):
            if s.ev is not None:
                self.events.append(Ev(idx, s.t, s.ev[0], s.ev[1], s.ev[2]))
        self.group = []
        g, last = -1, None
        for s in self.steps:
            if last is None or s.t - last > GROUP:
                g += 1
                last = s.t
            self.group.append(g)
        self.ngroups = g + 1
        self.groups = [[None, None] for _ in range(self.ngroups)]
        for idx, gg in enumerate(self.group):
            if self.groups[gg][0] is None:
                self.groups[gg][0] = idx
            self.groups[gg][1] = idx
        # instants at which a new stimulus comes
        self.screens = {self.group[e.k] for e in self.events if e.proc == "ENVIRONMENT"}
        self.screens |= {self.group[i] for i in range(len(self.steps)) if self.snap(i).stim is not self.snap(i - 1).stim}
        self.malformed = []
        self.cycles = []
        self.make_cycles()
        self.find_bindings()

    # -- rules made at run time

    def add_compiled(self, model):
        self.compiled = {}
        for name in model.productions:
            if name in self.rules:
                continue
            try:
                self.compiled[name] = rule_from_object(name, model.productions[name])
            except Exception as e:   # a compiled rule that cannot even be generated: left to C19 and C22
                self.compiled[name] = None
        self.rules.update({k: v for k, v in self.compiled.items() if v is not None})

    # -- access

    def snap(self, idx):
        """State after step idx (-1: at the start)."""
        return self.steps[idx].s if idx >= 0 else self.initial

    def window(self, lo, hi):
        """Distinct states after steps lo..hi."""
        out, seen = [], set()
        for i in range(lo, hi + 1):
            s = self.snap(i)
            if id(s) not in seen:
                seen.add(id(s))
                out.append(s)
        return out

    def first_of_instant(self, idx):
        return self.groups[self.group[idx]][0]

    def last_of_instant(self, idx):
        return self.groups[self.group[idx]][1]

    def complete(self, g):
        """Was instant g finished, as opposed to the recording stopping in the middle of it?"""
        if g < self.ngroups - 1:
            return True
        return self.rec.rest

    # -- cycles

    def make_cycles(self):
        cur = None
        for e in self.events:
            if e.proc != "PROCEDURAL":
                continue
            a = e.action
            if a == "CONFLICT RESOLUTION":
                if cur is not None and cur.end is None and cur.none is None:
                    self.malformed.append((e, "rule selection starts while %s" % ("rule %s is in progress" % cur.rule if cur.rule else "a selection is going on")))
                cur = Cycle(e)
                self.cycles.append(cur)
            elif a.startswith("RULE SELECTED: "):
                name = a[len("RULE SELECTED: "):]
                if cur is None or cur.selected is not None or cur.none is not None:
                    self.malformed.append((e, "rule %s is selected outside of rule selection" % name))
                    cur = Cycle(e)
                    self.cycles.append(cur)
                cur.selected, cur.rule = e, name
            elif a == "NO RULE FOUND":
                if cur is None or cur.selected is not None or cur.none is not None:
                    self.malformed.append((e, "'no rule found' outside of rule selection"))
                    continue
                cur.none = e
            elif a.startswith("RULE CREATED: ") or a.startswith("RULE RE-CREATED: "):
                if cur is None or cur.selected is None or cur.end is not None:
                    self.malformed.append((e, "a rule is compiled outside of rule firing"))
                    continue
                cur.created.append(e)
            elif a.startswith("RULE FIRED: ") or a.startswith("RULE STOPPED FROM FIRING: "):
                fired = a.startswith("RULE FIRED: ")
                name = a.split(": ", 1)[1]
                if cur is None or cur.selected is None or cur.end is not None or cur.rule != name:
                    self.malformed.append((e, "rule %s %s without having been selected" % (name, "fires" if fired else "is stopped")))
                    continue
                cur.end, cur.fired = e, fired
                cur.t_end = e.stamp
                r = self.rules.get(name)
                if fired and r is not None:
                    for a in r.actions:
                        if a[0] == "@" and self.goals.get(a[1]):
                            cur.t_end = rt(cur.t_end + self.goals[a[1]])
            else:
                self.malformed.append((e, "unknown event of the procedural module"))

    def find_bindings(self):
        for c in self.cycles:
            if not c.end:
                continue
            r = self.rules.get(c.rule)
            c.states = self.window(max(-1, self.first_of_instant(c.end.k) - 1), c.end.k - 1)
            if r is None:
                continue
            for s in reversed(c.states):
                b = ref.match_lhs(r, s.bufs, s.states)
                if b is not None and b not in c.binds:
                    c.binds.append(b)

    def idle(self):
        """[(first step, last step)] during which no rule is in progress (after 'no rule found', before the next selection)."""
        out = []
        for i, c in enumerate(self.cycles):
            if c.none is not None:
                nxt = self.cycles[i + 1].cr.k if i + 1 < len(self.cycles) else len(self.steps)
                out.append((c.none.k, nxt - 1, i))
        return out

    def kind_of(self, buf):
        if buf in self.goals:
            return "goal"
        if buf in self.retrievals:
            return "retrieval"
        if buf == "manual":
            return "manual"
        if buf == self.visual:
            return "visual"
        if buf == self.visloc:
            return "location"
        return None

    def show(self, k, n=6):
        """Events around a step, for reports."""
        near = [e for e in self.events if e.k <= k][-n:] + [e for e in self.events if e.k > k][:2]
        return ["(%s, %s, %s)" % (e.stamp, e.proc, e.action) for e in near]


def rule_from_object(name, production):
    gen = production["rule"]()
    lhs, rhs = [], []
    d = next(gen)
    for key in d:
        if key[0] == "?":
            lhs.append(("?", key[1:], dict(d[key])))
        else:
            lhs.append(("=", key[1:], canon.pattern(d[key])))
    d = next(gen)
    for key in d:
        v = d[key]
        if key[0] == "~":
            rhs.append(("~", key[1:], None, None))
        elif key[0] in "?!":
            rhs.append((key[0], key[1:], None, dict(v) if isinstance(v, dict) else [tuple(x) for x in v]))
        else:
            rhs.append((key[0], key[1:], v.typename, canon.pattern(v)))
    return ref.Rule(name, lhs, rhs, production["reward"])
