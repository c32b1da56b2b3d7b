"""Writes known_findings.json: the defects of pyactr that were found and repaired (and those recorded, if any)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # commit subject (start) -> property
    "two replacements": "C22", "compilation does not lose": "C19", "a variable compiled": "C19", "rules are not compiled if the second one binds": "C19",
    "rules are not compiled if the second one was": "C19", "rules are not compiled if the second one harvests": "C19", "the name of a chunk": "C19",
    "rules are not compiled into": "C19", "a compiled rule empties": "C19", "actions of a compiled": "C19", "rules are not compiled if the retrieval": "C19",
    "rules are not compiled": "C19",
    "actions that follow overwriting": "C06", "GUI ends": "C18", "a motor command or a key": "C22", "production rules without": "C22",
    "modifying an empty": "C22", "unbound negated": "C22", "a slot that the matched": "C04", "rounding of the time of environment": "C22",
    "environment_process starts": "C01", "similarities between": "C16", "activation can be": "C22", "strict harvesting does not": "C10",
    "clearing, modifying": "C20", "the visual location module is": "C20", "the visual module does not": "C20", "the visual module is busy": "C20",
    "shifting attention": "C14", "the visual buffer is cleared": "C14", "a third key": "C11", "motor_prepared is": "C16", "motor preparation is": "C11",
    "rules are selected by": "C04", "the last two rules": "C02", "initial_time is used": "C17", "a prepared motor": "C11", "module events that arrive": "C05",
    "a new stimulus does not": "C22", "a trigger key pressed at": "C22", "a trigger key pressed again": "C12",
    "closest is not ignored": "C13", "a slot that must differ from the chunk": "C04", "a variable in a chunk": "C04",
    "the end of an earlier": "C20", "telling the visual module": "C20", "encoding an object of an earlier": "C20",
    "rules that ask for different": "C19", "a retrieval is compiled away": "C19",
    "GUI draws": "C18", "GUI shows": "C18", "GUI running": "C18",
    "automatic search and buffering do not": "C13", "rules can modify the visual location": "C22", "a stimulus without text": "C22",
    "production compilation ties": "C19", "a compiled rule has the conditions": "C19", "compiled rules are put together once": "C22",
    "modifying a chunk after a delay takes": "C19", "visual search returns the stimulus": "C13", "a visual request without a command": "C22",
    "attention is shifted to objects": "C14", "a visual search excludes": "C13", "visual search of objects of": "C22", "visual buffers without a default": "C22",
}
FINDINGS = []     # recorded, not repaired
def main():
    out = list(FINDINGS)
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True, check=True).stdout
    for line in log.splitlines():
        h, _, subject = line.partition(" ")
        if not subject.startswith("fix: "):
            continue
        text = subject[5:]
        props = [p for s, p in PROP.items() if text.startswith(s)]
        assert props, text
        out.append({"id": h, "status": "fixed", "property": props[0], "line": "fixed: property=%s %s %s" % (props[0], h, text)})
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")
if __name__ == "__main__":
    main()
