"""Smaller variants of a model specification, largest cuts first."""

import copy

DEFAULTS = {"extreme": 0, "tie": 0, "grid": 0}


def variants(spec):
    def v(fn):
        s = copy.deepcopy(spec)
        try:
            fn(s)
        except (KeyError, IndexError, ValueError):
            return None
        return s if s != spec else None

    out = []

    def add(fn):
        s = v(fn)
        if s is not None:
            out.append(s)

    n = len(spec["rules"])
    # halves, quarters, single rules
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            def cut(s, a=a, size=size):
                del s["rules"][a:a + size]
                if not s["rules"]:
                    raise ValueError
            add(cut)
        size //= 2
    if len(spec.get("sessions") or []) > 1:
        for i in range(len(spec["sessions"])):
            add(lambda s, i=i: s["sessions"].pop(i))
    if spec.get("env"):
        used = any(c[1] in ("visual", "visual_location", "vis", "vloc") for r in spec["rules"] for c in r["lhs"] + r["rhs"]) or not {"visual", "vis"}.isdisjoint(spec.get("params", {}).get("buffer_spreading_activation", ()))
        if not used:
            add(lambda s: (s.pop("env"), s.pop("vis", None)))
        for i in range(len(spec["env"]["stimuli"])):
            def drop(s, i=i):
                e = s["env"]
                if len(e["stimuli"]) < 2:
                    raise ValueError
                k = len(e["stimuli"])
                for key in ("stimuli", "triggers", "times"):
                    if len(e[key]) == k:
                        e[key].pop(i)
            add(drop)
        for i, scr in enumerate(spec["env"]["stimuli"]):
            for name in scr:
                if len(scr) > 1:
                    add(lambda s, i=i, name=name: s["env"]["stimuli"][i].pop(name))
                if "vis_delay" in scr[name]:
                    add(lambda s, i=i, name=name: s["env"]["stimuli"][i][name].pop("vis_delay"))
        for i in range(len(spec["env"]["triggers"])):
            if spec["env"]["triggers"][i]:
                add(lambda s, i=i: s["env"]["triggers"].__setitem__(i, []))
        for k in ("focus", "size", "viewing_distance", "simulated_screen_size", "simulated_display_resolution"):
            if k in spec["env"]:
                add(lambda s, k=k: s["env"].pop(k))
    used = {c[1] for r in spec["rules"] for c in r["lhs"] + r["rhs"]} | set(spec.get("params", {}).get("buffer_spreading_activation", ()))
    for key, keep in (("goals", "g"), ("retrievals", "retrieval")):
        for i, g in enumerate(spec.get(key, [])):
            if g["name"] != keep and g["name"] not in used:
                add(lambda s, key=key, i=i: s[key].pop(i))
            if g.get("chunk") and g["name"] not in used:
                add(lambda s, key=key, i=i: s[key][i].pop("chunk"))
            if g.get("delay"):
                add(lambda s, key=key, i=i: s[key][i].pop("delay"))
            if g.get("finst"):
                add(lambda s, key=key, i=i: s[key][i].pop("finst"))
    for b in list(spec.get("params", {}).get("buffer_spreading_activation", ())):
        if len(spec["params"]["buffer_spreading_activation"]) > 1:
            add(lambda s, b=b: s["params"]["buffer_spreading_activation"].pop(b))
    for k in list(spec.get("params", {})):
        add(lambda s, k=k: s["params"].pop(k))
    for k in ("activations", "similarities", "initial_time"):
        if spec.get(k):
            add(lambda s, k=k: s.pop(k))
    for d, dm in enumerate(spec.get("dms") or []):
        for i in range(len(dm)):
            add(lambda s, d=d, i=i: s["dms"][d].pop(i))
            if len(dm[i][1]) > 1:
                add(lambda s, d=d, i=i: s["dms"][d][i].__setitem__(1, s["dms"][d][i][1][:1]))
    for k in DEFAULTS:
        if spec.get("rng", {}).get(k):
            add(lambda s, k=k: s["rng"].__setitem__(k, 0))
    for i, r in enumerate(spec["rules"]):
        for j in range(len(r["rhs"])):
            if len(r["rhs"]) > 1:
                add(lambda s, i=i, j=j: s["rules"][i]["rhs"].pop(j))
        for j in range(len(r["lhs"])):
            if len(r["lhs"]) > 1:
                add(lambda s, i=i, j=j: s["rules"][i]["lhs"].pop(j))
        for side in ("rhs", "lhs"):
            for j, a in enumerate(r[side]):
                if len(a) > 3 and isinstance(a[3], dict) and a[1] != "manual" and a[2] != "_visual":
                    for slot in a[3]:
                        add(lambda s, i=i, j=j, side=side, slot=slot: s["rules"][i][side][j][3].pop(slot))
        for k in ("form", "reward", "utility"):
            if r.get(k):
                add(lambda s, i=i, k=k: s["rules"][i].pop(k))
    for i, g in enumerate(spec.get("goals", [])):
        if g.get("chunk"):
            for slot in g["chunk"]["slots"]:
                add(lambda s, i=i, slot=slot: s["goals"][i]["chunk"]["slots"].pop(slot))
    if spec.get("chunks") and '{"c"' not in "":
        names = [c["name"] for c in spec["chunks"]]
        text = repr({k: spec[k] for k in spec if k != "chunks"})
        for i, nme in enumerate(names):
            if "{'c': '%s'}" % nme not in text:
                add(lambda s, i=i: s["chunks"].pop(i))
    t0 = spec.get("initial_time") or 0
    mt = spec.get("max_time", 1.0)
    for t in (round(t0 + (mt - t0) / 2, 4), round(mt - 0.05, 4)):
        if t0 + 0.05 < t < mt:
            add(lambda s, t=t: s.__setitem__("max_time", t))
    return out


def legal(spec):
    """Does the variant still describe a legal model?"""
    bufs = {g["name"] for g in spec.get("goals", [])} | {r["name"] for r in spec.get("retrievals", [])} | {"manual"}
    if spec.get("env"):
        bufs |= {spec["vis"]["visual"], spec["vis"]["visual_location"]} if spec.get("vis") else {"visual", "visual_location"}
    types = spec.get("types", {})
    names = {c["name"] for c in spec.get("chunks", [])}
    for r in spec["rules"]:
        if not r["lhs"] or not r["rhs"]:
            return False
        bound, tested = set(), set()
        for c in r["lhs"]:
            if c[1] not in bufs:
                return False
            if c[0] == "=":
                bound.add(c[1])
                tested.add(c[1])
                for sp in c[3].values():
                    if sp.get("var"):
                        bound.add(sp["var"])
        for c in r["lhs"]:
            if c[0] == "=":
                for sp in c[3].values():
                    if any(x not in bound for x in sp.get("nvar", ())):
                        return False
        for a in r["rhs"]:
            if a[1] not in bufs:
                return False
            if a[0] in "=*" and a[1] not in tested:
                return False
            if a[0] in "=*@+":
                if a[0] in "@+" and not a[3] and a[2] in types:
                    pass
                for sp in a[3].values():
                    for x in ([sp["var"]] if sp.get("var") else []) + list(sp.get("nvar", ())):
                        if x not in bound and not spec.get("faulty"):
                            return False
    for g in spec.get("goals", []):
        if g["name"].startswith("t") and not g.get("chunk"):
            continue
    text = repr({k: spec[k] for k in spec if k != "chunks"})
    import re
    return all(n in names for n in re.findall(r"\{'c': '([^']+)'\}", text))
