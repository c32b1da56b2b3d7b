"""
Canonical, plain-data view of pyactr objects.

A chunk is ("C", typename, ((slot, value), ...)) with the slots that are empty left out and the
rest sorted; a value is a str, a chunk, or ("!", text) for anything that is not ground.
"""

from pyactr import chunks, utilities

Empty = chunks.Chunk.EmptyValue


def is_empty(v):
    return v is None or isinstance(v, Empty) or (isinstance(v, str) and v == "None")


def value(v):
    """Canonical form of what sits in a slot."""
    if isinstance(v, utilities.VarvalClass):
        if v.variables or v.negvalues or v.negvariables:
            return ("!", repr(v))
        v = v.values
    if is_empty(v):
        return None
    if isinstance(v, chunks.Chunk):
        return chunk(v)
    if isinstance(v, str):
        return v
    return ("!", repr(v))


def chunk(c):
    slots = []
    for name, v in c:
        cv = value(v)
        if cv is not None:
            slots.append((name, cv))
    slots.sort()
    return ("C", c.typename, tuple(slots))


def untyped(c):
    """A chunk without its types: what pyactr's equality looks at."""
    if isinstance(c, tuple) and c and c[0] == "C":
        return ("C", "", tuple((s, untyped(v)) for s, v in c[2]))
    return c


def ground(c):
    if isinstance(c, tuple):
        if c[0] == "!":
            return False
        return all(ground(v) for _, v in c[2])
    return True


def slots(c):
    return dict(c[2])


def text(c):
    if c is None:
        return "-"
    if isinstance(c, tuple) and c[0] == "C":
        return "%s(%s)" % (c[1], ", ".join("%s=%s" % (s, text(v)) for s, v in c[2]))
    return str(c)


def pattern_value(v):
    """A slot of a rule's chunk: None or (value, var, negvalues, negvars)."""
    if isinstance(v, utilities.VarvalClass):
        val = v.values
        # an explicit None is a constraint ("empty"), a missing value is none
        if isinstance(val, str) and val == "None":
            cv = ("E",)
        elif val is None or isinstance(val, Empty):
            cv = None
        else:
            cv = value(val)
        nv = tuple(sorted((("E",) if is_empty(x) else value(x) for x in (v.negvalues or ())), key=repr))
        nvar = tuple(sorted(v.negvariables or ()))
        var = v.variables or None
        if cv is None and var is None and not nv and not nvar:
            return None
        return (cv, var, nv, nvar)
    if is_empty(v):
        return None
    return (value(v), None, (), ())


def pattern(c):
    """Canonical form of a chunk as it stands in a rule: {slot: (value, var, negvals, negvars)}."""
    d = {}
    for name, v in c:
        p = pattern_value(v)
        if p is not None:
            d[name] = p
    return d
