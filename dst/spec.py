"""
Model specifications: plain JSON data, and how a pyactr model is built from one.

Values in chunks: a str, None, or {"c": name} for a named chunk.
Slots in rules:   {"v": value, "var": name, "nv": [values], "nvar": [names]}; "v": "None" asks for emptiness.
Rule:             {"name", "lhs": [[code, buffer, type, {slot: slotspec}] | ["?", buffer, {query: answer}]],
                   "rhs": [[code, buffer, type, slots] | ["~", buffer] | ["?", buffer, {..}] | ["!", buffer, [[m, a]]]],
                   "utility", "reward", "form": "string" | "func"}
"""

import warnings

import pyactr
from pyactr import declarative, utilities

from . import seam

VV = utilities.VarvalClass


class Built:
    def __init__(self):
        self.model = None
        self.env = None
        self.named = {}
        self.dms = []
        self.sim = None
        self.buffers = {}
        self.rec = None
        self.stimuli = None


def _val(named, v):
    if isinstance(v, dict):
        return named[v["c"]]
    return v


def _tok(v):
    """A value as it is written in a string rule."""
    if isinstance(v, dict):
        return v["c"]
    return v


def slot_string(slot, sp):
    out = []
    if sp.get("v") is not None:
        out.append("%s %s" % (slot, _tok(sp["v"])))
    if sp.get("var"):
        out.append("%s =%s" % (slot, sp["var"]))
    for x in sp.get("nv", ()):
        out.append("%s ~%s" % (slot, _tok(x)))
    for x in sp.get("nvar", ()):
        out.append("%s ~=%s" % (slot, x))
    return out


def chunk_string(typ, slots):
    parts = ["isa %s" % typ]
    for s in slots:
        parts += slot_string(s, slots[s])
    return " ".join(parts)


def rule_string(rule):
    lhs, rhs = [], []
    for c in rule["lhs"]:
        if c[0] == "?":
            lhs.append("?%s> %s" % (c[1], " ".join("%s %s" % kv for kv in c[2].items())))
        else:
            lhs.append("=%s> %s" % (c[1], chunk_string(c[2], c[3])))
    for a in rule["rhs"]:
        if a[0] == "~":
            rhs.append("~%s>" % a[1])
        elif a[0] == "?":
            rhs.append("?%s> %s" % (a[1], " ".join("%s %s" % kv for kv in a[2].items())))
        elif a[0] == "!":
            rhs.append("!%s> %s" % (a[1], " ".join("%s %s" % (m, x) for m, x in a[2])))
        else:
            rhs.append("%s%s> %s" % (a[0], a[1], chunk_string(a[2], a[3])))
    return "\n".join(lhs) + "\n==>\n" + "\n".join(rhs)


def rule_func(rule, named):
    def vv(sp):
        v = sp.get("v")
        return VV(values=_val(named, v), variables=sp.get("var"), negvalues=tuple(_val(named, x) for x in sp.get("nv", ())), negvariables=tuple(sp.get("nvar", ())))

    def mk(typ, slots):
        return pyactr.makechunk("", typ, **{s: vv(slots[s]) for s in slots})

    def func():
        d = {}
        for c in rule["lhs"]:
            d[c[0] + c[1]] = dict(c[2]) if c[0] == "?" else mk(c[2], c[3])
        yield d
        d = {}
        for a in rule["rhs"]:
            if a[0] == "~":
                d["~" + a[1]] = None
            elif a[0] == "?":
                d["?" + a[1]] = dict(a[2])
            elif a[0] == "!":
                d["!" + a[1]] = [tuple(x) for x in a[2]]
            else:
                d[a[0] + a[1]] = mk(a[2], a[3])
        yield d
    func.__name__ = rule["name"]
    return func


def make_chunk(named, c):
    """c: {"type", "slots": {slot: value}}"""
    return pyactr.makechunk("", c["type"], **{s: _val(named, v) for s, v in c["slots"].items()})


def stimuli_of(spec):
    out = []
    for st in spec["env"]["stimuli"]:
        scr = {}
        for name in st:
            d = {}
            for k, v in st[name].items():
                d[k] = (list(v) if spec["env"].get("lists") else tuple(v)) if k == "position" else v
            scr[name] = d
        out.append(name if list(scr.values()) in ([{"position": (320, 180)}], [{"position": [320, 180]}]) and name.isalpha() else scr)
    return out


def build_model(spec):
    """Everything up to, but not including, model.simulation()."""
    b = Built()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if spec.get("env"):
            e = spec["env"]
            kw = {}
            if e.get("size"):
                kw["size"] = tuple(e["size"])
            if e.get("focus"):
                kw["focus_position"] = tuple(e["focus"])
            for k in ("simulated_display_resolution", "simulated_screen_size"):
                if e.get(k):
                    kw[k] = tuple(e[k])
            if e.get("viewing_distance"):
                kw["viewing_distance"] = e["viewing_distance"]
            b.env = pyactr.Environment(**kw)
        params = dict(spec.get("params", {}))
        m = pyactr.ACTRModel(environment=b.env, **params)
        b.model = m
        for t, slots in spec.get("types", {}).items():
            pyactr.chunktype(t, ", ".join(slots))
        if any("visual_typename" in el for scr in (spec.get("env") or {}).get("stimuli", ()) for el in scr.values()) or any(len(a) > 2 and a[2] in ("_visual_ext", "_visuallocation_ext") for x in spec["rules"] for a in x["rhs"]):
            pyactr.chunktype("_visual_ext", "shape", include="_visual")
            pyactr.chunktype("_visuallocation_ext", "shape", include="_visuallocation")
        for c in spec.get("chunks", []):
            b.named[c["name"]] = pyactr.makechunk(c["name"], c["type"], **{s: _val(b.named, v) for s, v in c["slots"].items()})
        dms = spec.get("dms") or [[]]
        for i, dm in enumerate(dms):
            if i == 0:
                d = m.decmem if len(m.decmems) == 1 else list(m.decmems.values())[0]
            else:
                d = declarative.DecMem()
                m.decmems["decmem%d" % i] = d
            b.dms.append(d)
            for ch, times in dm:
                c = make_chunk(b.named, ch)
                if times != sorted(times):
                    d.add(c, times)
                    continue
                for t in times:
                    d.add(c, t)
        for i, act in enumerate(spec.get("activations", [])):
            dmi, ch, a = act
            b.dms[dmi].add_activation(make_chunk(b.named, ch), a)
        for g in spec.get("goals", [{"name": "g"}]):
            if g["name"] == "g":
                buf = m.goals["g"]
                if g.get("delay"):
                    buf.delay = g["delay"]
            else:
                buf = m.set_goal(g["name"], g.get("delay", 0))
            if g.get("chunk"):
                buf.add(make_chunk(b.named, g["chunk"]))
            if g.get("harvest") is not None:
                buf.default_harvest = b.dms[g["harvest"]]
        for r in spec.get("retrievals", [{"name": "retrieval"}]):
            if r["name"] == "retrieval":
                buf = m.retrievals["retrieval"]
            else:
                buf = m.set_retrieval(r["name"])
            if r.get("finst"):
                buf.finst = r["finst"]
            if r.get("dm") is not None:
                buf.dm = b.dms[r["dm"]]
            if r.get("params"):
                buf.model_parameters = dict(r["params"])
        if spec.get("vis"):
            v = spec["vis"]
            if v.get("harvest", True):
                m.visualBuffer(v["visual"], v["visual_location"], b.dms[0], finst=v.get("finst", 4))
            else:
                m.visualBuffer(v["visual"], v["visual_location"], finst=v.get("finst", 4))
            if v.get("params"):
                m.visbuffers[v["visual"]].model_parameters = dict(v["params"])
        for x in spec.get("similarities", []):
            m.set_similarities(_val(b.named, x[0]), _val(b.named, x[1]), x[2])
        for rule in spec["rules"]:
            add_rule(m, rule, b.named)
    return b


def add_rule(m, rule, named):
    if rule.get("form") == "func":
        m.productions.update({rule["name"]: {"rule": rule_func(rule, named), "utility": rule.get("utility", 0), "reward": rule.get("reward")}})
    else:
        m.productionstring(name=rule["name"], string=rule_string(rule), utility=rule.get("utility", 0), reward=rule.get("reward"))


def start(spec, b, rec, gui=False, trace=True, realtime=False):
    """model.simulation() under the recorder; returns the simulation."""
    prev, seam.CURRENT = seam.CURRENT, rec
    seam.BUILDING = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw = {"realtime": realtime, "trace": trace, "gui": gui}
            if spec.get("initial_time"):
                kw["initial_time"] = spec["initial_time"]
            if b.env is not None:
                e = spec["env"]
                b.stimuli = stimuli_of(spec)
                kw["environment_process"] = b.env.environment_process
                kw["stimuli"] = b.stimuli
                kw["triggers"] = list(e["triggers"])
                kw["times"] = list(e["times"])
                if e.get("start_time"):
                    kw["start_time"] = e["start_time"]
            sim = b.model.simulation(**kw)
    finally:
        built, seam.BUILDING = seam.BUILDING, None
        seam.CURRENT = prev
    b.sim = sim
    b.buffers = {}
    b.buffers.update(b.model.goals)
    b.buffers.update(b.model.retrievals)
    b.buffers.update(b.model.visbuffers)
    for kind, obj in built:
        b.buffers.setdefault(kind, obj)
    b.rec = rec
    rec.wall0 = rec.clock.now if rec.clock else 0.0
    rec.t0 = float(spec.get("initial_time") or 0)
    rec.stimuli = [{s: {"position": (320, 180)}} if isinstance(s, str) else s for s in stimuli_of(spec)] if b.env is not None else []
    rec.attach(b.model, sim, b.buffers, b.dms, b.env)
    return sim
