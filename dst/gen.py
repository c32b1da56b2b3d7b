"""
Seeded generation of whole simulated worlds: a model (buffers, memory, rules, parameters), an environment with
its schedule and triggers, the source of the draws (with its faults), and the way the run is driven.

A model is made of *threads*: each owns a control buffer and walks through a script of stages (request and harvest
a retrieval, set or overwrite another goal, press a key, search and attend the screen, ...). Threads run into each
other in the shared modules, on a coarse grid of durations, so that completions, interrupts, key presses and
stimulus changes keep falling on the same instants. A few free rules test combinations of buffers and states.
"""

import random

from . import faulty

VALUES = ["x", "y", "z"]
VARS = ["x", "y", "xy", "n", "nn", "yx"]
KEYS = ["A", "F", "J", "SPACE", "B", "Q", "U", "5", "6", "1", "k"]
GRID = [0.05, 0.05, 0.1, 0.1, 0.15, 0.085, 0.03, 0.2, 0.235, 0.0125]
TEXTS = ["x", "y", "cat", "dog", "z"]

BASE = {"retrieval": 0.55, "goal2": 0.5, "motor": 0.3, "env": 0.3, "vision": 0.6, "subsymbolic": 0.35, "noise": 0.4,
        "utilities": 0.4, "learning": 0.3, "compile": 0.12, "strict": 0.25, "delay": 0.5, "spread": 0.3, "partial": 0.2,
        "finst": 0.2, "multi_dm": 0.1, "optimized": 0.2, "func": 0.25, "free": 0.5, "initial_time": 0.15, "emma": 0.7,
        "chunks": 0.35, "sessions": 0.0, "rehearse": 0.2, "neg": 0.35, "threads": 0.5, "long": 0.2, "retrieval2": 0.1,
        "replace": 0.3, "prepared": 0.15, "execute": 0.05, "visname": 0.15, "set": 0.12, "ext": 0.2, "drive": 0.0, "extra": 0.12, "aux3": 0.1, "query": 0.12, "share": 0.1, "late": 0.06, "recall": 0.25}

PROFILES = {
    "general": {},
    "goals": {"goal2": 1.0, "delay": 0.8, "env": 0.1, "vision": 0.2, "replace": 0.7, "threads": 0.8},
    "retrieval": {"retrieval": 1.0, "goal2": 0.2, "env": 0.05, "motor": 0.1, "finst": 0.4, "multi_dm": 0.2, "replace": 0.6, "retrieval2": 0.25, "rehearse": 0.5, "recall": 0.7},
    "activation": {"retrieval": 1.0, "goal2": 0.2, "env": 0.0, "motor": 0.05, "subsymbolic": 1.0, "noise": 0.6, "spread": 0.55, "partial": 0.4, "chunks": 0.8, "rehearse": 0.7, "optimized": 0.25, "finst": 0.2, "share": 0.6, "extra": 0.2},
    "learn": {"retrieval": 1.0, "goal2": 0.9, "aux3": 0.3, "env": 0.0, "motor": 0.0, "subsymbolic": 1.0, "noise": 0.2, "spread": 0.9, "share": 0.95, "set": 0.3, "extra": 0.2, "threads": 0.2, "strict": 0.1,
              "chunks": 0.5, "delay": 0.2, "partial": 0.1, "long": 0.5, "rehearse": 0.6, "optimized": 0.1, "finst": 0.1},
    "motor": {"motor": 1.0, "env": 0.3, "vision": 0.2, "retrieval": 0.2, "goal2": 0.3, "threads": 0.7},
    "env": {"env": 1.0, "motor": 0.9, "vision": 0.4, "retrieval": 0.2, "goal2": 0.2},
    "vision": {"env": 1.0, "motor": 0.3, "vision": 1.0, "retrieval": 0.15, "goal2": 0.2, "threads": 0.4, "visname": 0.25},
    "utility": {"utilities": 1.0, "learning": 1.0, "noise": 0.5, "env": 0.1, "motor": 0.1, "retrieval": 0.4, "goal2": 0.4},
    "conflict": {"utilities": 1.0, "learning": 0.35, "subsymbolic": 0.6, "noise": 0.7, "free": 0.9, "neg": 0.7, "threads": 0.8, "query": 0.4, "late": 0.25},
    "compile": {"compile": 1.0, "env": 0.2, "motor": 0.35, "query": 0.2, "retrieval": 0.5, "goal2": 0.5, "learning": 0.4, "delay": 0.15, "free": 0.2, "replace": 0.2, "long": 0.5, "set": 0.3, "neg": 0.3},
    "harvest": {"strict": 0.8, "goal2": 1.0, "aux3": 0.6, "threads": 0.8, "extra": 0.5, "delay": 0.3, "env": 0.05, "motor": 0.15, "retrieval": 0.5, "replace": 0.3, "multi_dm": 0.15},
    "faulty": {"faulty": 1, "env": 0.4, "motor": 0.5, "vision": 0.8, "retrieval": 0.5, "goal2": 0.8, "replace": 0.5, "set": 0.3, "compile": 0.05},
    "mixed": {"env": 0.8, "motor": 0.7, "vision": 0.7, "retrieval": 0.7, "goal2": 0.6, "threads": 0.9},
}


class Gen:
    def __init__(self, profile, seed):
        self.rng = random.Random("%s/%s" % (profile, seed))
        self.f = dict(BASE)
        self.f.update(PROFILES[profile])
        self.nrule = 0

    def p(self, feature):
        return self.rng.random() < self.f[feature]

    def pick(self, *xs):
        return self.rng.choice(xs[0] if len(xs) == 1 else xs)

    def chance(self, x):
        return self.rng.random() < x

    # -- the whole

    def spec(self):
        r = self.rng
        s = {}
        self.s = s
        self.use = {k: self.p(k) for k in ("retrieval", "goal2", "motor", "env", "subsymbolic", "utilities", "compile", "strict", "multi_dm", "chunks", "delay", "retrieval2")}
        self.use["vision"] = self.use["env"] and self.p("vision")
        s["types"] = {"ctl": ["st", "a", "b"], "aux": ["st", "a", "b"], "fact": ["k", "v", "w"], "nm": ["id"]}
        self.share = self.p("share")
        if self.share:
            # control chunks and facts have slots in common (which matters for restricted spreading activation)
            s["types"]["ctl"] += ["k", "v"]
            s["types"]["aux"] += ["k", "v"]
        s["chunks"] = []
        if self.use["chunks"]:
            s["chunks"] = [{"name": "n%d" % i, "type": "nm", "slots": {"id": "i%d" % i}} for i in range(r.randint(1, 3))]
        s["params"] = self.params()
        self.dms(s)
        self.buffers(s)
        s["rules"] = []
        if self.use["env"]:
            self.environment(s)
        for t in self.threads:
            self.script(t)
        if self.p("free"):
            for _ in range(r.randint(1, 3)):
                self.free_rule()
        if self.use["utilities"] and self.chance(0.5):
            for rule in list(s["rules"]):
                if self.chance(0.3):
                    self.rival(rule)
        if self.chance(0.3):
            r.shuffle(s["rules"])
        s["max_time"] = round((s.get("initial_time") or 0) + r.choice([0.6, 1.0, 1.5]) * (3 if self.p("long") else 1), 4)
        s["rng"] = {"seed": r.randrange(1 << 30), "extreme": r.choice([0, 0, 0.1, 0.3]), "tie": r.choice([0, 0, 0.2, 0.6]), "grid": r.choice([0, 0, 0.05, 0.005])}
        s["sessions"] = self.sessions(s)
        if self.f.get("faulty"):
            s["faulty"] = True
            todo = list(s["rules"])
            r.shuffle(todo)
            if r.random() < 0.5:
                # requests first
                todo.sort(key=lambda rule: not any(a[0] == "+" for a in rule["rhs"]))
            for rule in todo[:r.choice([1, 2, 3, 4])]:
                faulty.break_rule(r, s, rule)
        self.extras(s, random.Random("extras/%s" % r.random()))
        return s

    def extras(self, s, r):
        """Settings that have no bearing on the rest of the world, drawn apart from it."""
        p = s["params"]
        if p.get("buffer_spreading_activation") and r.random() < 0.4:
            others = [b["name"] for b in s["goals"][1:]] + [b["name"] for b in s["retrievals"]] + ([self.visual] if s.get("env") else [])
            for name in r.sample(others, min(len(others), r.choice([1, 1, 2]))):
                p["buffer_spreading_activation"][name] = r.choice([1, 0.5, 2, 0.3])
            if len(p["buffer_spreading_activation"]) > 1 and r.random() < 0.2:
                del p["buffer_spreading_activation"]["g"]
        if r.random() < 0.15:
            new = r.choice(["X", "X", "10", "x_1"])
            for part in ("goals", "dms", "activations", "similarities", "rules", "env"):
                if part in s:
                    s[part] = renamed(s[part], "y", new)
        for dm in s["dms"]:
            for item in dm:
                if r.random() < 0.15:
                    item[1] = r.sample(item[1], len(item[1]))
        if s.get("env") and r.random() < 0.15:
            s["env"]["simulated_screen_size"] = r.choice([[40, 30], [25, 14], [80, 45]])
        if s.get("env") and r.random() < 0.1:
            s["env"]["simulated_display_resolution"] = [800, 600]
        if s.get("env") and r.random() < 0.1:
            s["env"]["lists"] = True
        if s.get("env") and r.random() < 0.1:
            for screen in s["env"]["stimuli"]:
                for el in screen.values():
                    if r.random() < 0.5 and el["position"] != [320, 180]:
                        el["position"] = [el["position"][0] + r.choice([0, 0.5, 0.25]), el["position"][1] + r.choice([0.5, 0, 0.9])]
        if p.get("utility_noise") and r.random() < 0.3:
            p["utility_noise"] = r.choice([0.1, 0.25])
        if not p.get("production_compilation") and r.random() < 0.15:
            for rule in s["rules"]:
                tested = {c[1] for c in rule["lhs"] if c[0] == "="}
                for b, q in [(x["name"], "recently_retrieved") for x in s["retrievals"]] + [(self.visloc, "attended")] * bool(s.get("env")):
                    if r.random() < (0.5 if b in tested else 0.15) and all(a[1] != b for a in rule["rhs"]):
                        rule["rhs"].append(["?", b, {q: r.choice(["False", "True"])}])
        if not p.get("production_compilation") and r.random() < 0.12:
            for rule in s["rules"]:
                self.whole(rule, r)
            self.compare(s, r)
        for b in s["retrievals"]:
            if r.random() < 0.12:
                b["params"] = dict(r.sample([("retrieval_threshold", r.choice([-3, 0.2, 1])), ("latency_factor", r.choice([0.15, 0.5])), ("latency_exponent", 0.8), ("decay", 0.4), ("subsymbolic", False),
                                             ("rule_firing", 0.07), ("mismatch_penalty", 2)], r.choice([1, 1, 2])))
        if s.get("vis") and r.random() < 0.3 and len(s["dms"]) == 1:
            s["vis"]["harvest"] = False
        if s.get("vis") and r.random() < 0.3:
            s["vis"]["params"] = dict(r.sample([("emma", r.random() < 0.5), ("emma_noise", r.random() < 0.5), ("eye_mvt_scaling_parameter", 0.02), ("eye_mvt_angle_parameter", 0.5)], r.choice([1, 2])))
        if s.get("env") and r.random() < 0.25:
            for rule in s["rules"]:
                for act in rule["rhs"]:
                    if act[0] in "+*" and act[1] == self.visloc and len(act) > 3:
                        self.elsewhere(act[3], s, r)
        if s.get("env") and r.random() < 0.2:
            for rule in s["rules"]:
                for act in rule["rhs"]:
                    if act[0] in "+*" and act[1] == self.visloc and len(act) > 3:
                        for k, o, i in (("screen_x", "screen_y", 1), ("screen_y", "screen_x", 0)):
                            if o not in act[3] and act[3].get(k, {}).get("v") in ("lowest", "highest", "closest", "onewayclosest") and r.random() < 0.7:
                                act[3][o] = {"v": r.choice("<>") + str(int(r.choice(self.positions)[i]))}
        if s.get("env") and r.random() < 0.12:
            # elements of types of their own
            for screen in s["env"]["stimuli"]:
                for el in screen.values():
                    if r.random() < 0.7:
                        el.update({"shape": r.choice(["round", "long"]), "visual_typename": "_visual_ext", "visual_location_typename": "_visuallocation_ext"})
                        if r.random() < 0.6:
                            el["externally_visible"] = el.get("externally_visible", []) + ["shape"]
            for rule in s["rules"]:
                for act in rule["rhs"]:
                    if act[0] in "=@" and act[1] in (self.visloc, self.visual) and len(act) > 3:
                        act[2] = "_visuallocation_ext" if act[1] == self.visloc else "_visual_ext"
                    if act[0] in "+*" and act[1] == self.visloc and len(act) > 3 and r.random() < 0.7:
                        act[2] = "_visuallocation_ext"
                        if r.random() < 0.7:
                            act[3]["shape"] = {r.choice(["v", "v", "v", "nv"]): r.choice(["round", "long"])}
                            if "nv" in act[3]["shape"]:
                                act[3]["shape"]["nv"] = [act[3]["shape"]["nv"]]

    def elsewhere(self, slots, s, r):
        """A search for something that is not like this."""
        for k in ("value", "color"):
            if k in slots and "v" in slots[k] and r.random() < 0.5:
                slots[k] = {"nv": [slots[k]["v"]]}
            elif k not in slots and (k == "value" or self.ext) and r.random() < 0.2:
                slots[k] = {"nv": [r.choice(TEXTS if k == "value" else ["red", "green"])]}
        for k, i in (("screen_x", 0), ("screen_y", 1)):
            x = str(int(r.choice(self.positions)[i]))
            if k not in slots:
                if r.random() < 0.25:
                    slots[k] = {"nv": [x]}
            elif "v" in slots[k] and r.random() < 0.3:
                v = slots[k]["v"]
                slots[k] = {"nv": [v]} if v.isdigit() else {"v": v, "nv": [x]}

    def sessions(self, s):
        if not self.p("sessions"):
            return [{"mode": "run"}]
        return [{"mode": "run", "max_time": round(s["max_time"] * self.rng.random() * 0.7 + (s.get("initial_time") or 0) + 0.01, 4)}, {"mode": "run"}]

    def params(self):
        r, p = self.rng, {}
        p["rule_firing"] = r.choice([0.05, 0.05, 0.05, 0.04, 0.1, 0.0501, 0.03])
        if self.use["subsymbolic"]:
            p["subsymbolic"] = True
            p["latency_factor"] = r.choice([0.1, 0.05, 0.2, 0.02, 1.0])
            p["retrieval_threshold"] = r.choice([0, 0, -2, -5, 0.5, 1.5])
            p["latency_exponent"] = r.choice([1.0, 1.0, 0.5, 0.25, 2.0])
            if p["latency_exponent"] * -p["retrieval_threshold"] > 3:
                p["latency_exponent"] = 0.25
            p["baselevel_learning"] = r.random() < 0.75
            p["decay"] = r.choice([0.5, 0.5, 0.3, 0.8])
            if self.p("optimized"):
                p["optimized_learning"] = True
            if self.p("noise"):
                p["instantaneous_noise"] = r.choice([0.1, 0.5, 0.02])
            if self.p("spread"):
                p["buffer_spreading_activation"] = {"g": r.choice([1, 0.5, 2])}
                p["strength_of_association"] = r.choice([2, 1, 5])
                p["spreading_activation_restricted"] = r.random() < (0.65 if self.share else 0.4)
                p["association_only_from_chunks"] = r.random() < (0.25 if self.share else 0.5)
            if self.p("partial"):
                p["partial_matching"] = True
                p["mismatch_penalty"] = r.choice([1, 0.5, 3])
            if r.random() < 0.1:
                p["activation_trace"] = True
        if self.use["utilities"]:
            if self.p("noise"):
                p["subsymbolic"] = True
                p["utility_noise"] = r.choice([0.5, 1, 3])
            if self.p("learning"):
                p["utility_learning"] = True
                p["utility_alpha"] = r.choice([0.2, 0.5, 1, 0.05])
        if self.use["strict"]:
            p["strict_harvesting"] = True
        if self.use["compile"]:
            p["production_compilation"] = True
        if self.use["motor"] and self.p("prepared"):
            p["motor_prepared"] = True
        if self.use["env"]:
            if not self.p("emma"):
                p["emma"] = False
            else:
                p["emma_noise"] = r.random() < 0.6
                p["emma_landing_site_noise"] = r.random() < 0.2
                p["eye_mvt_angle_parameter"] = r.choice([1, 1, 0.5])
                p["eye_mvt_scaling_parameter"] = r.choice([0.01, 0.01, 0.05, 0.005])
            if r.random() < 0.3:
                p["automatic_visual_search"] = False
        if r.random() < 0.5:
            p = {k: p[k] for k in sorted(p)}
        return p

    def value(self, chunks=0.3):
        if self.s["chunks"] and self.chance(chunks):
            return {"c": self.pick(self.s["chunks"])["name"]}
        return self.pick(VALUES)

    def dms(self, s):
        r = self.rng
        it = 0
        if self.p("initial_time"):
            it = r.choice([0.05, 1, 2.5, 0.1234])
            s["initial_time"] = it
        n = 2 if self.use["multi_dm"] else 1
        s["dms"] = []
        lo = -5.0
        for _ in range(n):
            dm = []
            for _ in range(r.randint(1, 5) if (self.use["retrieval"] or n > 1) else r.randint(0, 1)):
                slots = {"k": self.value(), "v": self.value()}
                if self.chance(0.3):
                    slots["w"] = self.value()
                if self.chance(0.2):
                    del slots["v"]
                times = sorted(round(r.choice([lo, lo / 2, -1.0, -0.25, -10, it - 0.5]) - r.random() * r.choice([0, 1]), 4) for _ in range(r.randint(1, 3)))
                times = [min(t, it) for t in times]
                if self.chance(0.2):
                    times = [it]
                dm.append([{"type": "fact", "slots": slots}, times])
            # one entry per chunk
            seen, out = [], []
            for c, t in dm:
                if c["slots"] not in seen:
                    seen.append(c["slots"])
                    out.append([c, t])
            s["dms"].append(out)
        if n == 2:
            for dm in s["dms"]:
                if not dm:
                    dm.append([{"type": "fact", "slots": {"k": "x", "v": "y"}}, [it - 1]])
        if self.use["subsymbolic"] and self.chance(0.15) and s["dms"][0]:
            s["activations"] = [[0, self.pick(s["dms"][0])[0], r.choice([0.5, -1, 2])]]
        if s["params"].get("partial_matching") and s["chunks"] and self.chance(0.7):
            s["similarities"] = [[self.pick(VALUES), self.pick(VALUES), -r.choice([0.1, 0.5, 2])]]
            if len(s["chunks"]) > 1:
                s["similarities"].append([{"c": "n0"}, {"c": "n1"}, -r.choice([0, 0.2, 0.7])])
            s["similarities"] = [x for x in s["similarities"] if x[0] != x[1]]

    def buffers(self, s):
        r = self.rng
        self.threads = ["g"]
        s["goals"] = [{"name": "g", "chunk": {"type": "ctl", "slots": {"st": "s0", "a": self.value(), "b": self.value()}}}]
        if self.chance(0.2):
            del s["goals"][0]["chunk"]["slots"]["b"]
        if self.share:
            s["goals"][0]["chunk"]["slots"]["k"] = self.value()
        nthreads = 1 + (1 if self.p("threads") else 0) + (1 if self.p("threads") and self.chance(0.4) else 0)
        for i in range(1, nthreads):
            name = "t%d" % i
            self.threads.append(name)
            s["goals"].append({"name": name, "chunk": {"type": "ctl", "slots": {"st": "s0", "a": self.value(), "b": self.value()}}, "delay": 0})
        self.aux = []
        if self.use["goal2"]:
            for i in range(r.randint(1, 2) + (1 if self.p("aux3") else 0)):
                g = {"name": "g%d" % (i + 2), "delay": r.choice(GRID) if self.use["delay"] else 0}
                if self.chance(0.5):
                    g["chunk"] = {"type": "aux", "slots": {"st": "s0", "a": self.value()}}
                s["goals"].append(g)
                self.aux.append(g["name"])
        if self.use["delay"] and self.chance(0.15):
            s["goals"][0]["delay"] = r.choice(GRID)
        s["retrievals"] = [{"name": "retrieval"}]
        if self.p("finst"):
            s["retrievals"][0]["finst"] = r.choice([1, 1, 2, 4])
        if self.use["retrieval2"]:
            s["retrievals"].append({"name": "retr2"})
        if len(s["dms"]) > 1:
            for g in s["goals"]:
                g["harvest"] = r.randrange(2)
            for b in s["retrievals"]:
                b["dm"] = r.randrange(2)
        if self.use["env"] and self.p("visname"):
            s["vis"] = {"visual": "vis", "visual_location": "vloc", "finst": r.choice([4, 1, 2, 0])}
        self.visual, self.visloc = ("vis", "vloc") if s.get("vis") else ("visual", "visual_location")

    def environment(self, s):
        r = self.rng
        n = r.randint(1, 4)
        stimuli, used = [], set()
        self.positions = []
        self.ext = self.p("ext")
        for i in range(n):
            scr = {}
            for j in range(r.choice([1, 1, 2, 3, 4])):
                while True:
                    pos = (r.choice([20, 100, 160, 320, 500, 600, 310]), r.choice([20, 90, 180, 300, 190]))
                    if pos not in [tuple(x["position"]) for x in scr.values()]:
                        break
                el = {"text": r.choice(TEXTS), "position": list(pos)}
                if self.chance(0.6):
                    el["vis_delay"] = r.choice([1, 5, 10, 20, 40, "10"])
                if self.ext and self.chance(0.6):
                    el["color"] = r.choice(["red", "green"])
                    if self.chance(0.5):
                        el["externally_visible"] = ["color"]
                if self.ext and self.chance(0.12):
                    del el["text"]
                self.positions.append(pos)
                scr["o%d%d" % (i, j)] = el
            stimuli.append(scr)
        if n > 1 and self.chance(0.15):
            stimuli[-1] = {k: dict(v) for k, v in stimuli[0].items()}
        if self.ext and self.chance(0.15):
            # a plain word, at the default position
            stimuli[r.randrange(n)] = {r.choice(["cat", "dog"]): {"position": [320, 180]}}
            self.positions.append((320, 180))
        # the keys the model presses are likely triggers
        self.keys = r.sample(KEYS, 3)
        triggers = []
        for _ in range(n):
            x = r.random()
            if x < 0.55:
                triggers.append([r.choice(self.keys)])
            elif x < 0.7:
                triggers.append([k if self.chance(0.7) else k.lower() for k in r.sample(self.keys, r.choice([2, 2, 3]))])
            elif x < 0.8:
                triggers.append("SPACE")
            elif x < 0.9:
                triggers.append([])
            else:
                triggers.append(r.choice("afj"))
        times = [r.choice([0.1, 0.2, 0.25, 0.3, 0.35, 0.4, 0.485, 0.5, 0.6, 0.26, 1, 1, 0.0001 if self.chance(0.2) else 0.05]) for _ in range(n)]
        if self.chance(0.1):
            times = times[:1]
        if n > 1 and self.chance(0.08):
            triggers = triggers[:1]
        s["env"] = {"stimuli": stimuli, "triggers": triggers, "times": times}
        if self.chance(0.5):
            s["env"]["focus"] = list(r.choice(self.positions + [(320, 180), (0, 0)]))
        if self.chance(0.15):
            s["env"]["size"] = [800, 600]
        if self.chance(0.1):
            s["env"]["viewing_distance"] = 70

    # -- rules

    def add(self, lhs, rhs, **kw):
        rule = {"name": "r%d" % self.nrule, "lhs": lhs, "rhs": rhs}
        self.nrule += 1
        if self.p("func"):
            rule["form"] = "func"
        if self.use["utilities"]:
            rule["utility"] = self.pick([0, 0, 1, 2, 5, -1])
            if self.chance(0.3):
                rule["reward"] = self.pick([1, 5, 10, 0, -2])
        rule.update(kw)
        if rule.get("reward", 1) is None:
            del rule["reward"]
        if self.p("query"):
            self.ask(rule)
        if self.p("late"):
            self.late(rule)
        if self.aux and self.p("extra"):
            self.embellish(rule)
        rule["rhs"] = self.legal(rule["lhs"], rule["rhs"])
        self.s["rules"].append(rule)
        return rule

    def ask(self, rule):
        """A query of several things at once."""
        r = self.rng
        bufs = [b for b in self.aux + ["g"] + (["retrieval"] if self.use["retrieval"] else []) + (["manual"] if self.use["motor"] else []) + ([self.visual, self.visloc] if self.use["env"] else [])
                if ("?", b) not in [(c[0], c[1]) for c in rule["lhs"]]]
        if not bufs:
            return
        b = r.choice(bufs)
        q = {}
        if b in ("manual", self.visual):
            for x in r.sample(["state", "preparation", "processor", "execution"], r.choice([1, 2, 2, 3])):
                q[x] = self.pick("free", "free", "free", "busy")
        else:
            q["state"] = self.pick("free", "free", "free", "busy", "error")
        if b != "manual" and self.chance(0.7):
            q["buffer"] = self.pick("full", "empty", "full") if b != "g" else "full"
            if self.chance(0.5):
                q = {k: q[k] for k in sorted(q)}
        rule["lhs"].append(["?", b, q])

    def late(self, rule):
        """Slots that must differ from a variable which only a condition after them binds."""
        r = self.rng
        tests = [c for c in rule["lhs"] if c[0] == "="]
        if len(tests) < 2:
            return
        if self.chance(0.3):
            r.shuffle(tests)
            rule["lhs"] = tests + [c for c in rule["lhs"] if c[0] != "="]
        first, rest = tests[0], tests[1:]
        if first[2] not in ("ctl", "aux"):
            return
        bound = [sp["var"] for c in rest for sp in c[3].values() if sp.get("var")]
        if not bound:
            return
        v = r.choice(bound)
        slots = [s for s in ("a", "b") if s not in first[3]]
        for s in slots[:r.choice([1, 2, 2])]:
            first[3][s] = {"nvar": [v]} if self.chance(0.8) else {"nvar": [v], "nv": [r.choice(VALUES)]}

    def compare(self, s, r):
        """A thread that keeps the chunk of another buffer and compares it with what is in the buffer later."""
        others = [(b, "aux") for b in self.aux] + [(b["name"], "fact") for b in s["retrievals"]]
        if not others:
            return
        s["goals"].append({"name": "cmp", "chunk": {"type": "ctl", "slots": {"st": "s0", "a": r.choice(VALUES)}}, "delay": 0})
        if len(s["dms"]) > 1:
            s["goals"][-1]["harvest"] = r.randrange(2)
        b, typ = r.choice(others)
        both = r.sample([{"var": b}, {"nvar": [b]}, {"nv": [r.choice(VALUES)], "nvar": [b]}], 2)
        moves = [({}, {"st": {"v": "s1"}, "a": {"var": b}})] + [({"a": x}, {"st": {"v": y}}) for x, y in zip(both, r.choice([("s0", "s2"), ("s2", "s0"), ("s0", "s0")]))]
        for i, (test, move) in enumerate(moves):
            rule = {"name": "q%d" % i, "lhs": [["=", "cmp", "ctl", dict(test, st={"v": "s%d" % min(i, 1)})], ["=", b, typ, {}]], "rhs": [["=", "cmp", "ctl", move], ["=", b, typ, {}]]}
            if r.random() < 0.4:
                rule["lhs"].reverse()
            if typ == "aux" and r.random() < 0.4:
                rule["rhs"][1][3] = {"a": {"v": r.choice(VALUES)}}
            elif r.random() < 0.4:
                rule["rhs"].pop()
            if r.random() < 0.3:
                rule["form"] = "func"
            s["rules"].append(rule)

    def whole(self, rule, r):
        """The name of a tested buffer stands for the chunk in it."""
        tests = [c for c in rule["lhs"] if c[0] == "="]
        mine = [c for c in tests if c[2] in ("ctl", "aux")]
        others = [c[1] for c in tests if c[1] != "g"]
        if not mine or not others:
            return
        c, b = r.choice(mine), r.choice(others)
        if c[1] == b:
            return
        for a in rule["rhs"]:
            if a[1] == c[1] and a[0] in "=@*+" and r.random() < 0.7:
                a[3][r.choice(["a", "b"])] = {"var": b}
        slot = r.choice(["a", "b"])
        if r.random() < 0.5 and not c[3].get(slot, {}).get("var"):
            c[3][slot] = r.choice([{"var": b}, {"nvar": [b]}, {"nvar": [b]}])
        if r.random() < 0.3:
            rule["lhs"].reverse()

    def embellish(self, rule):
        """Further buffers tested and acted on by a rule."""
        r = self.rng
        used = {c[1] for c in rule["lhs"] + rule["rhs"]}
        free = [b for b in self.aux if b not in used]
        if self.chance(0.25):
            free += [b for b in self.threads if b not in used] + (["retrieval"] if self.use["retrieval"] and "retrieval" not in used else [])
        bound = [sp["var"] for c in rule["lhs"] if c[0] == "=" for sp in c[3].values() if sp.get("var")]
        for b in r.sample(free, min(len(free), r.choice([1, 1, 2, 2, 3]))):
            typ = "ctl" if b in self.threads else "fact" if b == "retrieval" else "aux"
            tested = self.chance(0.8)
            if tested:
                slots = {}
                if self.chance(0.3) and typ != "fact":
                    v = self.pick(VARS + bound)
                    slots["a"] = {"var": v}
                    bound = bound + [v]
                rule["lhs"].append(["=", b, typ, slots])
            if self.chance(0.45 if tested else 0.9) and typ == "aux":
                code = self.pick("~", "~", "=", "@", "+", "*") if tested else self.pick("~", "@", "+", "+")
                if code == "@" and [g for g in self.s["goals"] if g["name"] == b][0].get("delay"):
                    code = "+"
                rule["rhs"].append(["~", b] if code == "~" else [code, b, "aux", self.aux_slots(bound)])
            elif tested and self.chance(0.3):
                rule["rhs"].append(["~", b])

    def legal(self, lhs, rhs):
        """At most one request per buffer in a rule; modifications only of tested buffers; a tested, unused control buffer is kept under strict harvesting."""
        tested = {c[1] for c in lhs if c[0] == "="}
        out, req = [], set()
        for a in rhs:
            if a[0] in "=*" and a[1] not in tested:
                continue
            if a[0] in "+*@":
                if a[1] in req:
                    continue
                req.add(a[1])
            out.append(a)
        return out

    def rival(self, rule):
        import copy
        new = copy.deepcopy(rule)
        new["name"] = "q%d" % self.nrule
        self.nrule += 1
        new["utility"] = self.pick([0, 1, 2, 5, 3, -1])
        if self.chance(0.3):
            new["reward"] = self.pick([1, 5, 10, 0])
        for a in new["rhs"]:
            if a[0] == "=" and a[2] in ("ctl", "aux") and self.chance(0.5):
                a[3]["b"] = {"v": self.pick(VALUES)}
        self.s["rules"].append(new)

    def cond(self, buf, st, extra=True):
        """Condition on a control buffer, with the variables it binds."""
        r = self.rng
        slots = {"st": {"v": st}}
        bound = []
        if extra:
            for slot in ("a", "b"):
                x = r.random()
                if x < 0.5:
                    v = r.choice([v for v in VARS])
                    slots[slot] = {"var": v}
                    if v not in bound:
                        bound.append(v)
                elif x < 0.5 + 0.25 * self.f["neg"]:
                    slots[slot] = {"nv": [r.choice(VALUES)]}
                elif x < 0.5 + 0.4 * self.f["neg"] and bound:
                    slots[slot] = {"nvar": [bound[0]]}
                elif x < 0.5 + 0.5 * self.f["neg"]:
                    slots[slot] = {"var": "zz", "nv": [r.choice(VALUES)]}
                    bound.append("zz")
            if self.share and buf == "g" and self.chance(0.5):
                slots["k"] = {"var": "kk"}
                bound = ["kk"] + bound
        return ["=", buf, "ctl", slots], bound

    def term(self, bound, none=0.0):
        """A slot in an action: a bound variable or a value."""
        if bound and self.chance(0.55):
            return {"var": self.pick(bound)}
        return {"v": self.value()}

    def script(self, T):
        r = self.rng
        menu = ["noop", "noop"]
        if self.use["retrieval"]:
            menu += ["retrieve"] * 5
            if self.p("recall"):
                menu += ["recall"] * 3
                if any(b.get("finst") for b in self.s["retrievals"]):
                    menu += ["review"] * 6
        if self.aux:
            menu += ["goal"] * 4
        if self.aux and self.share:
            menu += ["study"] * 8
        if self.use["motor"]:
            menu += ["key"] * 4
        if self.use["vision"]:
            menu += ["look"] * 5 + ["scan"] * 2
        n = r.randint(1, 4)
        self.stage = 0
        for i in range(n):
            kind = r.choice(menu)
            getattr(self, "do_" + kind)(T)
        if self.chance(0.65):
            # loop: the last stage goes back to the first
            lhs, bound = self.cond(T, "s%d" % self.stage)
            self.add([lhs], [["=", T, "ctl", self.advance("s0", bound)]], reward=self.pick([None, 5, 3]) if self.use["utilities"] else None)
        elif self.use["utilities"]:
            lhs, bound = self.cond(T, "s%d" % self.stage, False)
            self.add([lhs], [["=", T, "ctl", {"st": {"v": "end"}}]], reward=self.pick([None, 5, 3, 10]))

    def advance(self, st, bound):
        slots = {"st": {"v": st}}
        for s in ("a", "b") + (("k",) if self.share else ()):
            if self.chance(0.3):
                slots[s] = self.term(bound)
        return slots

    def move(self, T, st, bound):
        """The action on the control buffer that takes the thread to its next stage."""
        if self.chance(self.f["set"]):
            code = self.pick("@+*") if not self.s["goals"][0].get("delay") or T != "g" else "+"
            slots = self.advance(st, bound)
            if code != "*" and self.chance(0.4):
                slots.setdefault("a", self.term(bound))
                slots.setdefault("b", self.term(bound))
            return [code, T, "ctl", slots]
        return ["=", T, "ctl", self.advance(st, bound)]

    def here(self):
        return "s%d" % self.stage

    def next(self):
        self.stage += 1
        return "s%d" % self.stage

    def do_noop(self, T):
        lhs, bound = self.cond(T, self.here())
        st = self.next()
        rhs = [self.move(T, st, bound)]
        if self.p("execute"):
            rhs.append(["!", "g", [["show", "st"]]])
        self.add([lhs], rhs)

    def request_slots(self, bound):
        slots = {}
        if "kk" in bound and self.chance(0.6):
            slots["k"] = {"var": "kk"}
        elif self.chance(0.85):
            slots["k"] = self.term(bound)
        if self.chance(0.3):
            slots["v"] = self.term(bound)
        for s in ("v", "w"):
            if s not in slots and self.chance(0.25 * self.f["neg"]):
                slots[s] = {"nv": [self.value(0.1)]}
            elif s not in slots and bound and self.chance(0.15 * self.f["neg"]):
                slots[s] = {"nvar": [self.pick(bound)]}
        return slots

    def do_retrieve(self, T):
        r = self.rng
        buf = "retr2" if self.use["retrieval2"] and self.chance(0.4) else "retrieval"
        finst = [b for b in self.s["retrievals"] if b["name"] == buf][0].get("finst")
        lhs, bound = self.cond(T, self.here())
        st = self.next()
        conds = [lhs]
        if self.chance(0.4):
            conds.append(["?", buf, {"state": "free"}])
        rhs = [self.move(T, st, bound)]
        if finst and self.chance(0.6):
            rhs.append(["?", buf, {"recently_retrieved": self.pick(["False", "True", "False"])}])
        rhs.append(["+", buf, "fact", self.request_slots(bound)])
        self.add(conds, rhs)
        if self.p("replace"):
            # ask again at once, whatever happens
            lhs, bound = self.cond(T, st)
            st = self.next()
            self.add([lhs], [self.move(T, st, bound), ["+", buf, "fact", self.request_slots(bound)]])
        # harvest
        lhs, bound = self.cond(T, st)
        h = ["=", buf, "fact", {}]
        x = r.random()
        if x < 0.7:
            h[3]["v"] = {"var": "hv"}
        elif x < 0.8:
            h[3]["v"] = {"nv": [r.choice(VALUES)]}
        if self.chance(0.4):
            h[3]["k"] = {"var": self.pick(["hk"] + bound) if bound else "hk"}
        b2 = bound + [sp["var"] for sp in h[3].values() if sp.get("var") and sp["var"] not in bound]
        if self.chance(0.2):
            b2 = b2 + [buf]
        nxt = self.next()
        rhs = [self.move(T, nxt, b2)]
        if self.chance(0.5):
            rhs.append(["~", buf])
        elif self.chance(0.15):
            rhs.append(["=", buf, "fact", {"w": self.term(b2)}])
        self.add([lhs, h], rhs)
        if self.chance(0.75):
            lhs, bound = self.cond(T, st, False)
            self.add([lhs, ["?", buf, {"state": "error"}]], [["=", T, "ctl", {"st": {"v": nxt}}]])
        if self.chance(0.15):
            lhs, bound = self.cond(T, st, False)
            self.add([lhs, ["?", buf, {"state": "busy"}]], [["=", T, "ctl", {"b": {"v": self.pick(VALUES)}}]])

    def do_recall(self, T):
        """Retrieval after retrieval, of chunks retrieved recently or not."""
        buf = "retr2" if self.use["retrieval2"] and self.chance(0.3) else "retrieval"
        finst = [b for b in self.s["retrievals"] if b["name"] == buf][0].get("finst")
        here, wait = self.here(), self.next()
        cycle = self.rng.sample(VALUES, self.pick(1, 2, 2, 3))
        if self.chance(0.8):
            for i, v in enumerate(cycle):
                lhs = ["=", T, "ctl", {"st": {"v": here}}]
                if len(cycle) > 1:
                    lhs[3]["b"] = {"v": v}
                rhs = [["=", T, "ctl", {"st": {"v": wait}, "b": {"v": cycle[(i + 1) % len(cycle)]}}]]
                if finst and self.chance(0.8):
                    rhs.append(["?", buf, {"recently_retrieved": self.pick("False", "False", "True")}])
                slots = {}
                if self.chance(0.4):
                    slots["k"] = self.term([])
                elif self.chance(0.3):
                    slots["v"] = {"nv": [self.value(0.1)]}
                rhs.append(["+", buf, "fact", slots])
                self.add([lhs], rhs)
            if len(cycle) > 1:
                self.add([["=", T, "ctl", {"st": {"v": here}, "b": {"nv": cycle}}]], [["=", T, "ctl", {"b": {"v": cycle[0]}}]])
        rhs = [["=", T, "ctl", {"st": {"v": here}}]]
        if self.chance(0.5):
            rhs.append(["~", buf])
        self.add([["=", T, "ctl", {"st": {"v": wait}}], ["=", buf, "fact", {"v": {"var": "hv"}} if self.chance(0.3) else {}]], rhs)
        self.add([["=", T, "ctl", {"st": {"v": wait}}], ["?", buf, {"state": "error"}]], [["=", T, "ctl", {"st": {"v": self.pick(here, self.next())}}]])

    def do_review(self, T):
        """A series of retrievals of a few chunks, and then questions that depend on which of them are the recent ones."""
        buf = [b["name"] for b in self.s["retrievals"] if b.get("finst")][0]
        values = self.rng.sample(VALUES, self.pick(2, 3, 3))
        n = self.pick(3, 4, 4, 5)
        for i in range(n + self.pick(1, 2)):
            here = self.here()
            rhs = [["=", T, "ctl", {"st": {"v": self.next()}}]]
            if i >= n or self.chance(0.2):
                rhs.append(["?", buf, {"recently_retrieved": self.pick("False", "False", "True")}])
            rhs.append(["+", buf, "fact", {"v": {"v": self.rng.choice(values)}} if self.chance(0.8) else {}])
            self.add([["=", T, "ctl", {"st": {"v": here}}], ["?", buf, {"state": self.pick("free", "free", "error") if i >= n else "free"}]], rhs)
        self.add([["=", T, "ctl", {"st": {"v": self.here()}}], ["?", buf, {"state": "free"}]], [["=", T, "ctl", {"st": {"v": self.next()}}]])

    def do_study(self, T):
        """A chunk is made, put into memory, and memory is asked."""
        buf = self.pick(self.aux)
        lhs, bound = self.cond(T, self.here())
        st = self.next()
        slots = {"st": {"v": self.pick("s0", "s1")}, "k": {"var": "kk"} if "kk" in bound else self.term(bound)}
        if self.chance(0.6):
            slots["v"] = self.term(bound)
        self.add([lhs], [self.move(T, st, bound), ["+", buf, "aux", slots]])
        if self.chance(0.5):
            lhs, bound = self.cond(T, st)
            st = self.next()
            self.add([lhs, ["=", buf, "aux", {}]], [self.move(T, st, bound), ["~", buf]])
        if self.use["retrieval"]:
            self.do_retrieve(T)

    def aux_slots(self, bound):
        slots = {"st": {"v": self.pick("s0", "s1", "s2")}}
        for s in ("a", "b") + (("k", "v") if self.share else ()):
            if self.chance(0.5):
                slots[s] = self.term(bound)
        return slots

    def do_goal(self, T):
        r = self.rng
        buf = r.choice(self.aux)
        lhs, bound = self.cond(T, self.here())
        st = self.next()
        conds = [lhs]
        code = r.choice(["+", "+", "+", "@", "*", "=", "~"])
        if code in "*=" or self.chance(0.2):
            slots = {}
            if self.chance(0.5):
                slots["a"] = {"var": self.pick(["u"] + bound) if bound else "u"}
                if slots["a"]["var"] not in bound:
                    bound = bound + [slots["a"]["var"]]
            conds.append(["=", buf, "aux", slots])
        elif self.chance(0.35):
            conds.append(["?", buf, {"state": "free"} if self.chance(0.6) else {"buffer": self.pick("full", "empty")}])
        if code == "@" and [g for g in self.s["goals"] if g["name"] == buf][0].get("delay"):
            # overwriting with a delay keeps the procedural module waiting
            code = "+" if self.chance(0.8) else "@"
        rhs = [self.move(T, st, bound)]
        rhs.append(["~", buf] if code == "~" else [code, buf, "aux", self.aux_slots(bound)])
        self.add(conds, rhs)
        if self.p("replace") and code in "+*":
            lhs, bound = self.cond(T, st)
            st = self.next()
            conds = [lhs]
            code = self.pick("+", "+", "*", "~")
            if code == "*":
                conds.append(["=", buf, "aux", {}])
            self.add(conds, [self.move(T, st, bound), ["~", buf] if code == "~" else [code, buf, "aux", self.aux_slots(bound)]])
        if self.chance(0.5):
            # wait for it
            lhs, bound = self.cond(T, st)
            nxt = self.next()
            slots = {}
            if self.chance(0.6):
                slots["a"] = {"var": "w"}
                bound = bound + ["w"]
            if self.chance(0.5):
                slots["st"] = {"v": self.pick("s0", "s1", "s2")}
            rhs = [self.move(T, nxt, bound + ([buf] if self.chance(0.2) else []))]
            if self.chance(0.5):
                rhs.append(["~", buf])
            self.add([lhs, ["=", buf, "aux", slots]], rhs)

    def key(self):
        return self.pick(getattr(self, "keys", KEYS)) if self.chance(0.8) else self.pick(KEYS)

    def do_key(self, T):
        for _ in range(self.pick([1, 1, 2])):
            lhs, bound = self.cond(T, self.here())
            st = self.next()
            conds = [lhs]
            if self.chance(0.6):
                conds.append(["?", "manual", {self.pick("state", "state", "preparation", "processor", "execution"): self.pick("free", "free", "free", "busy")}])
            self.add(conds, [self.move(T, st, bound), ["+", "manual", "_manual", {"cmd": {"v": "press_key"}, "key": {"v": self.key()}}]])

    def search_slots(self):
        r = self.rng
        slots = {}
        x = r.random()
        if x < 0.3:
            slots["value"] = {"v": r.choice(TEXTS)}
        if self.ext and self.chance(0.5):
            slots["color"] = {"v": r.choice(["red", "green"])}
        x = r.random()
        pos = r.choice(self.positions)
        axis = r.choice(["screen_x", "screen_y"])
        val = str(pos[0 if axis == "screen_x" else 1])
        if x < 0.4:
            slots[axis] = {"v": r.choice(["lowest", "highest", "closest", "onewayclosest", "onewayclosest"])}
        elif x < 0.5:
            slots[axis] = {"v": str(int(val) + r.choice([0, 0, 0, 0, 1, -1, 10]))}
        elif x < 0.6:
            slots[axis] = {"v": r.choice("<>") + str(int(val) + r.choice([0, 0, -10, 10, 1, -1]))}
        if self.chance(0.2):
            other = "screen_y" if axis == "screen_x" else "screen_x"
            v2 = pos[1 if axis == "screen_x" else 0]
            slots[other] = {"v": r.choice(["", "<", ">"]) + str(v2 + r.choice([0, 0, 0, 10, -10, 1, -1]))}
        return slots

    def do_look(self, T):
        r = self.rng
        V, L = self.visual, self.visloc
        lhs, bound = self.cond(T, self.here())
        st = self.next()
        conds = [lhs]
        if self.chance(0.25):
            conds.append(["?", L, {"state": self.pick("free", "free", "error")}])
        rhs = [self.move(T, st, bound)]
        if self.chance(0.4):
            rhs.append(["?", L, {"attended": self.pick("False", "False", "True")}])
        rhs.append(["+", L, "_visuallocation", self.search_slots()])
        self.add(conds, rhs)
        if self.p("replace") and self.chance(0.4):
            lhs, bound = self.cond(T, st)
            st = self.next()
            self.add([lhs], [self.move(T, st, bound), ["+", L, "_visuallocation", self.search_slots()]])
        # attend
        lhs, bound = self.cond(T, st)
        nxt = self.next()
        conds = [lhs, ["=", L, "_visuallocation", {} if self.chance(0.5) else {"screen_x": {"var": "sx"}}]]
        if self.chance(0.6):
            conds.append(["?", V, {self.pick("state", "state", "preparation", "processor", "execution"): "free"}])
        rhs = [self.move(T, nxt, bound), ["+", V, "_visual", {"cmd": {"v": "move_attention"}, "screen_pos": {"var": L}}]]
        if self.chance(0.2):
            rhs.append(["~", L])
        elif self.chance(0.12):
            rhs.append(["=", L, "_visuallocation", {"value": self.term(bound)}])
        self.add(conds, rhs)
        if self.p("replace") and self.chance(0.5):
            # another shift while this one is under way
            lhs, bound = self.cond(T, nxt)
            nxt = self.next()
            conds = [lhs, ["=", L, "_visuallocation", {}]]
            self.add(conds, [self.move(T, nxt, bound), ["+", V, "_visual", {"cmd": {"v": "move_attention"}, "screen_pos": {"var": L}}]])
        if self.chance(0.7):
            lhs, bound = self.cond(T, nxt)
            st2 = self.next()
            rhs = [self.move(T, st2, bound + ["seen"])]
            if self.chance(0.4):
                rhs.append(["~", V])
            elif self.chance(0.1):
                rhs.append(["+", V, "_visual", {"cmd": {"v": "clear"}}])
            elif self.chance(0.15):
                rhs.append(["=", V, "_visual", {"value": self.term(bound + ["seen"])}])
            conds = [lhs, ["=", V, "_visual", {"value": {"var": "seen"}}]]
            if self.chance(0.4):
                conds.append(["?", V, {"state": "free"}])
            self.add(conds, rhs)
        if self.chance(0.4):
            lhs, bound = self.cond(T, st, False)
            self.add([lhs, ["?", L, {"state": "error"}]], [["=", T, "ctl", {"st": {"v": nxt}}]])

    def do_scan(self, T):
        """One location after another is searched and attended, also while the eyes are still moving."""
        V, L = self.visual, self.visloc
        here, found = self.here(), self.next()
        for i in range(self.pick(1, 1, 2)):
            rhs = [["=", T, "ctl", {"st": {"v": found}}]]
            if self.chance(0.85):
                rhs.append(["?", L, {"attended": self.pick("False", "False", "False", "True")}])
            rhs.append(["+", L, "_visuallocation", {} if self.chance(0.6) else self.search_slots()])
            lhs = [["=", T, "ctl", {"st": {"v": here}}]]
            if i:
                lhs.append(["?", V, {"state": self.pick("busy", "free")}])
            self.add(lhs, rhs)
        conds = [["=", T, "ctl", {"st": {"v": found}}], ["=", L, "_visuallocation", {}]]
        if self.chance(0.6):
            conds.append(["?", V, self.pick({"preparation": "free"}, {"execution": "busy"}, {"state": "free"})])
        nxt = self.next()
        rhs = [["=", T, "ctl", {"st": {"v": self.pick(here, here, nxt)}}], ["+", V, "_visual", {"cmd": {"v": "move_attention"}, "screen_pos": {"var": L}}]]
        if self.chance(0.3):
            rhs.append(["~", L])
        self.add(conds, rhs)
        self.add([["=", T, "ctl", {"st": {"v": found}}], ["?", L, {"state": "error"}]], [["=", T, "ctl", {"st": {"v": nxt}}]])

    def free_rule(self):
        """A rule that tests whatever combination, and acts on what it tests."""
        r = self.rng
        bufs = list(self.threads) + self.aux + (["retrieval"] if self.use["retrieval"] else [])
        lhs, rhs, bound = [], [], []
        for b in r.sample(bufs, min(len(bufs), r.choice([1, 2, 2]))):
            if b in self.threads:
                c, bb = self.cond(b, "s%d" % r.randint(0, 3))
                lhs.append(c)
                bound += bb
                if self.chance(0.6):
                    rhs.append(["=", b, "ctl", self.advance("s%d" % r.randint(0, 4), bb)])
            else:
                slots = {}
                if self.chance(0.5):
                    v = self.pick(VARS + bound)
                    slots["a" if b in self.aux else "k"] = {"var": v}
                    bound.append(v)
                if self.chance(0.25):
                    slots["b" if b in self.aux else "w"] = self.pick({"v": "None"}, {"nv": ["None"]}, {"nv": ["x"]})
                lhs.append(["=", b, "aux" if b in self.aux else "fact", slots])
                if self.chance(0.5):
                    rhs.append(["~", b])
                elif b in self.aux and self.chance(0.5):
                    rhs.append(["=", b, "aux", self.aux_slots(bound)])
        if self.chance(0.4):
            q = [("retrieval", {"state": self.pick("free", "busy", "error")}), ("manual", {"state": self.pick("free", "busy")}), ("retrieval", {"buffer": self.pick("full", "empty")}), ("manual", {"preparation": "free"}), ("g", {"buffer": "full"})]
            b, d = self.pick(q)
            lhs.append(["?", b, d])
        if not rhs:
            t = [c for c in lhs if c[0] == "=" and c[1] in self.threads]
            if t:
                rhs.append(["=", t[0][1], "ctl", {"b": {"v": self.pick(VALUES)}}])
            elif self.use["motor"]:
                rhs.append(["+", "manual", "_manual", {"cmd": {"v": "press_key"}, "key": {"v": self.key()}}])
            else:
                c = [c for c in lhs if c[0] == "="]
                if not c:
                    return
                rhs.append(["~", c[0][1]])
        if not any(c[0] == "=" for c in lhs):
            return
        self.add(lhs, rhs, utility=self.pick([0, -1, -3, 1]))


def renamed(x, old, new):
    """The value old is called new everywhere (names of variables and slots stay)."""
    if isinstance(x, dict):
        return {k: new if k in ("v", "text") and y == old else [new if z == old else z for z in y] if k == "nv" else slots_renamed(y, old, new) if k == "slots" else renamed(y, old, new) for k, y in x.items()}
    if isinstance(x, list):
        return [renamed(y, old, new) for y in x]
    return x


def slots_renamed(slots, old, new):
    return {k: new if v == old else v for k, v in slots.items()}


def generate(profile, seed):
    return Gen(profile, seed).spec()
