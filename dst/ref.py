"""
Reference semantics: small, independent, and working on plain data only (see canon).

Nothing here calls pyactr.
"""

import math

EMPTY = ("E",)


def untyped(c):
    if isinstance(c, tuple) and c and c[0] == "C":
        return ("C", "", tuple((s, untyped(v)) for s, v in c[2]))
    return c


def same(a, b):
    """Equality of values: empty is None; chunks are compared without their types, as pyactr does."""
    return untyped(a) == untyped(b)


def mk(typ, slots):
    return ("C", typ, tuple(sorted((s, v) for s, v in slots.items() if v is not None)))


class Names:
    """Named chunks of a spec, in canonical form."""

    def __init__(self, spec):
        self.d = {}
        for c in spec.get("chunks", []):
            self.d[c["name"]] = self.chunk(c)

    def val(self, v):
        if isinstance(v, dict):
            return self.d[v["c"]]
        if v is None or v == "None":
            return None
        return str(v)

    def chunk(self, c):
        return mk(c["type"], {s: self.val(v) for s, v in c["slots"].items()})

    def slots(self, slots):
        """Slots of a rule's chunk in canonical form: {slot: (value | EMPTY | None, var, negvalues, negvars)}."""
        out = {}
        for s, sp in slots.items():
            v = sp.get("v")
            if v is None:
                cv = None
            elif v == "None":
                cv = EMPTY
            else:
                cv = self.val(v)
            nv = tuple(EMPTY if x == "None" else self.val(x) for x in sp.get("nv", ()))
            var = sp.get("var") or None
            nvar = tuple(sp.get("nvar", ()))
            if cv is None and var is None and not nv and not nvar:
                continue
            out[s] = (cv, var, nv, nvar)
        return out


class Rule:
    """A rule in canonical form: lhs [("=", buf, slots) | ("?", buf, {query: answer})], rhs [(code, buf, type, slots|...)]."""

    def __init__(self, name, lhs, rhs, reward=None):
        self.name, self.lhs, self.rhs, self.reward = name, lhs, rhs, reward
        order = {"!": 0, "?": 0, "=": 1, "@": 2, "*": 3, "+": 4, "~": 5}
        self.actions = sorted(rhs, key=lambda a: order[a[0]])


def rules_of(spec, names):
    out = {}
    for r in spec["rules"]:
        lhs = []
        for c in r["lhs"]:
            lhs.append(("?", c[1], dict(c[2])) if c[0] == "?" else ("=", c[1], names.slots(c[3])))
        rhs = []
        for a in r["rhs"]:
            if a[0] == "~":
                rhs.append(("~", a[1], None, None))
            elif a[0] in "?!":
                rhs.append((a[0], a[1], None, a[2]))
            else:
                rhs.append((a[0], a[1], a[2], names.slots(a[3])))
        out[r["name"]] = Rule(r["name"], lhs, rhs, r.get("reward"))
    return out


def neq(val, negval):
    """Is val different from a negated value?"""
    if negval == EMPTY or negval is None:
        return val is not None
    return not same(val, negval)


def match_lhs(rule, bufs, states):
    """
    The conditions of a rule in a state: bindings if they hold, else None.

    bufs: {name: tuple of chunks}, states: {name: (state, preparation, processor, execution)}
    """
    binds = {}
    negs = []
    for cond in rule.lhs:
        code, buf, what = cond
        content = bufs.get(buf, ())
        if code == "?":
            for q, a in what.items():
                if q == "buffer":
                    full = bool(content)
                    if not ((a == "full" and full) or (a == "empty" and not full)):
                        return None
                else:
                    st = states[buf][("state", "preparation", "processor", "execution").index(q)]
                    if st != a:
                        return None
            continue
        if not content:
            return None
        chunk = content[0]
        have = dict(chunk[2])
        for s, (cv, var, nv, nvar) in what.items():
            v = have.get(s)
            if cv is not None:
                if cv == EMPTY:
                    if v is not None:
                        return None
                elif not same(cv, v):
                    return None
            for x in nv:
                if not neq(v, x):
                    return None
            if var is not None:
                if var in binds:
                    if not same(binds[var], v):
                        return None
                else:
                    binds[var] = v
            for x in nvar:
                negs.append((x, v))
        if buf in binds:
            if not same(binds[buf], chunk):
                return None
        else:
            binds[buf] = chunk
    for x, v in negs:
        if x in binds and same(binds[x], v):
            return None
    return binds


def resolve(slots, binds):
    """Values of the slots in an action that sets or modifies a chunk; KeyError for an unbound variable."""
    out = {}
    for s, (cv, var, nv, nvar) in slots.items():
        if nv or nvar:
            raise ValueError("negation")
        v = None
        if var is not None:
            v = binds[var]
        if cv is not None:
            v = None if cv == EMPTY else cv
        out[s] = v
    return out


def modified(chunk, typ, values):
    d = dict(chunk[2])
    for s, v in values.items():
        if v is None:
            d.pop(s, None)
        else:
            d[s] = v
    return mk(typ, d)


def request(slots, binds):
    """A search pattern after bindings: {slot: (value|EMPTY|None, [negated values])}; the slots bound to empty are listed apart."""
    out, loose = {}, []
    for s, (cv, var, nv, nvar) in slots.items():
        v = cv
        if var is not None:
            v = binds[var]
            if v is None or v == "":        # (an empty text says as little as nothing)
                v = None
                loose.append(s)
        neg = [EMPTY if x is None else x for x in nv]
        for x in nvar:
            b = binds[x]
            neg.append(EMPTY if b is None else b)
        out[s] = (v, neg)
    return out, loose


def fits(pattern, chunk):
    have = dict(chunk[2])
    for s, (v, neg) in pattern.items():
        h = have.get(s)
        if v is not None:
            if v == EMPTY:
                if h is not None:
                    return False
            elif not same(v, h):
                return False
        for x in neg:
            if not neq(h, x):
                return False
    return True


def mismatch(pattern, chunk, penalty, sims):
    """Partial-matching term: 0 for a perfect match, else the summed (dis)similarities of the slots that do not match."""
    have = dict(chunk[2])
    total = 0.0
    for s, (v, neg) in pattern.items():
        h = have.get(s)
        if v is not None:
            if v == EMPTY:
                if h is not None:
                    total += -penalty
            elif not same(v, h):
                total += similarity(sims, v, h, penalty)
        for x in neg:
            if not neq(h, x):
                total += -penalty if x == EMPTY else similarity(sims, x, h, penalty)
    return total


def similarity(sims, a, b, penalty):
    return sims.get((untyped(a), untyped(b)), -penalty)


def base_level(now, traces, p, activation=None):
    """None when the chunk has no base-level activation (no presentation before now)."""
    B = None
    if p["baselevel_learning"]:
        past = [t for t in traces if now - t > 5e-5]
        if past:
            if p["optimized_learning"]:
                B = [math.log(n / (1 - p["decay"])) - p["decay"] * math.log(now - max(past)) for n in {len(past), len(traces)}]
            else:
                B = [math.log(sum((now - t) ** (-p["decay"]) for t in past))]
    else:
        B = [0.0]
    if activation is not None:
        B = [activation] if B is None else [math.log(math.exp(x) + math.exp(activation)) for x in B]
    return B


def find_values(chunk, only_chunks):
    return [(s, v) for s, v in chunk[2] if v is not None and (not only_chunks or not isinstance(v, str))]


def spreading(chunk, bufs, dm, p):
    """dm: iterable of chunks."""
    total = 0.0
    only = p["association_only_from_chunks"]
    S = p["strength_of_association"]
    mine = [(s, untyped(v)) for s, v in find_values(chunk, only)]
    values = [v for _, v in mine]
    for buf, w in p["buffer_spreading_activation"].items():
        content = bufs.get(buf, ())
        if not content:
            continue
        src = find_values(content[0], only)
        if not src:
            continue
        part = 0.0
        for s, j in src:
            j = untyped(j)
            if j != untyped(chunk) and j not in values:
                continue
            if p["spreading_activation_restricted"]:
                if (s, j) not in mine:
                    continue
                fan = 1 + sum(1 for c in dm for s2, v in c[2] if s2 == s and untyped(v) == j)
            else:
                fan = 1 + sum(1 for c in dm for _, v in c[2] if untyped(v) == j)
            part += S - math.log(fan / max(1, values.count(j)))
        total += w / len(src) * part
    return total


DEFAULTS = {"subsymbolic": False, "rule_firing": 0.05, "latency_factor": 0.1, "latency_exponent": 1.0, "decay": 0.5,
            "baselevel_learning": True, "optimized_learning": False, "instantaneous_noise": 0, "retrieval_threshold": 0,
            "buffer_spreading_activation": {}, "spreading_activation_restricted": False, "strength_of_association": 0,
            "association_only_from_chunks": True, "partial_matching": False, "mismatch_penalty": 1, "activation_trace": False,
            "utility_noise": 0, "utility_learning": False, "utility_alpha": 0.2, "motor_prepared": False,
            "strict_harvesting": False, "production_compilation": False, "automatic_visual_search": True, "emma": True,
            "emma_noise": True, "emma_landing_site_noise": False, "eye_mvt_angle_parameter": 1, "eye_mvt_scaling_parameter": 0.01}


def params_of(spec):
    p = dict(DEFAULTS)
    p.update(spec.get("params", {}))
    return p


# ---- motor: the times of the Lisp ACT-R motor module that the documentation of pyactr's module quotes

LEFT = {"1", "2", "3", "4", "5", "Q", "W", "E", "R", "T", "A", "S", "D", "F", "G", "Z", "X", "C", "V", "B", "SPACE"}
RIGHT = {"6", "7", "8", "9", "0", "Y", "U", "I", "O", "P", "H", "J", "K", "L", "N", "M", "SPACE"}
HOME = {"A", "S", "D", "F", "J", "K", "L", "SPACE"}
SLOW = {"5", "6"}


def press_times(key):
    if key in HOME:
        return (0.15, 0.05, 0.01, 0.09)
    if key in SLOW:
        return (0.25, 0.05, 0.11, 0.16)
    return (0.25, 0.05, 0.1, 0.15)


def preparation_time(key, last, prepared):
    base = press_times(key)[0]
    if prepared or key == last:
        return 0.0
    if last is not None and (key in HOME) == (last in HOME):
        if (key in LEFT) == (last in LEFT):
            return base - 0.1
        return base - 0.05
    return base


# ---- vision

def visual_angle(a, b, size, screen, distance):
    d = math.hypot(float(b[0]) - float(a[0]), float(b[1]) - float(a[1]))
    return math.atan2(d / (float(size[0]) / float(screen[0])), distance)


def foveal_distance(angle, size, screen, distance):
    return float(size[0]) / float(screen[0]) * math.tan(angle * math.pi / 180) * distance
