"""Writes MANIFEST.json from the registered checks and the properties."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
from dst import checks
NOT = {
    "C23": "subsumption and equality of chunks are pure functions of two or three values: no schedule, clock, I/O, randomness or fault has any bearing on them, so simulation decides nothing; they are exercised inside every simulated run (matching, retrieval) only as far as models use them",
    "C24": "parsing of chunk and rule strings is a pure function of its input; no concurrency, time, I/O or fault; the simulated models are built in both notations, but equivalence for every string is a matter for other techniques",
    "C25": "pure arithmetic on two positions; no concurrency, time, I/O or fault for it to depend on",
}
NOTES = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    out, na = [], []
    for p in props:
        c = checks.CHECKS.get(p["id"])
        if c is None:
            na.append({"property": p["id"], "reason": NOT.get(p["id"], "not decided yet: its check is being built")})
            continue
        out.append({
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick /opt/venv/bin/python check.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "deterministic simulation with fault injection: " + c.technique,
            "level": "exploration",
            "level_note": c.note,
        })
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path[:0]=['.', '/repo']; import dst.checks\"",
         "checks": out, "not_applicable": na,
         "notes": "No hooks in /repo: the seams (numpy.random, stdout, time, tkinter, the simpy loop) are all reached from outside. Replay: python check.py --replay FILE."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
if __name__ == "__main__":
    main()
