#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/meta.py and properties.jsonl."""
import json
import os

from sim.meta import META

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python check.py "
NA = {
    "N01": "Pure function of the box tree: no schedule, clock, I/O or fault takes part in the layout arithmetic; input generation alone would decide it, which is another technique.",
    "N02": "Pure function of one string (inline style parser): nothing for a simulator to schedule or to fault.",
    "N03": "Pure function of code text and styles (syntax highlighting merge): nothing for a simulator to schedule or to fault.",
    "N04": "Pure string escaping of texts and names; depends on input alone, not on any history, schedule or fault.",
    "N05": "Pure geometry of shapes and arrow heads; no concurrency, time, I/O or multi-party behaviour is involved.",
    "N06": "Pure mapping of a Markdown tree to elements; no concurrency, time, I/O or multi-party behaviour is involved.",
    "N07": "Needs two real renderers compared pixel by pixel on single inputs; Inkscape is a stub under simulation and no schedule or fault takes part.",
    "N08": "Pure arithmetic over image sizes and scales; no history, schedule or fault takes part.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in META:
            m = META[i]
            checks.append({
                "property": i, "quick_cmd": PY + i, "thorough_cmd": PY + i + " --tier thorough",
                "technique": m["technique"], "level": "exploration", "level_note": m["note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    d = {"version": 1, "setup_cmd": "true",
         "hooks": {"guard": "ELSIE_SIM_HOOKS (unused: every seam is reached from outside, no hook "
                            "was added to /repo)", "enable": "nothing to enable", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Deterministic simulation with fault injection; see DESIGN.md. Replay: "
                  "/opt/venv/bin/python check.py <ID> --replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
