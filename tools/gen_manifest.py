#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = {
    "C01": "Termination is a measure checked on every step of the bounded instances (and as liveness in the thorough tier); panics, hangs and stack use are looked for in the library on every case run.",
    "C05": "All streams up to the stated length over the node kinds of each instance, then replayed; longer ones generated.",
    "C21": "Exhaustive over histories of two and three callers up to the stated length, replayed with real threads turn by turn; free-running threads recorded and validated.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py --prop %s --tier quick" % i,
        "thorough_cmd": "python3 check.py --prop %s --tier thorough" % i,
        "technique": "TLA+ specification checked with TLC; its behaviours replayed into the library; recorded observations of the library validated against the specification",
        "level": "model_checking",
        "level_note": notes.get(i, "Exhaustive on the bounded instances of the specification; the binding to the code is by replay of every one of those behaviours "
                                   "and by judging the library's results on many more generated cases with the specification's predicate."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
