"""Oracles of the modules, by property."""
from . import compiled, oracles, peripherals, retrieval, states

def c10(T):
    yield from retrieval.c10(T)
    yield from oracles.c10_goals(T)

ORACLES = {"C19": compiled.c19, "C08": retrieval.c08, "C09": retrieval.c09, "C10": c10,
           "C11": peripherals.c11, "C12": peripherals.c12, "C13": peripherals.c13, "C14": peripherals.c14, "C20": states.c20}
