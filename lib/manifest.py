"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "TLA+ specification (Explore/Machine) checked with TLC; recorded executions of the real parser validated against it by TLC",
    "P20": "TLA+ protocol automaton; event traces recorded at every parser of the real library validated against it by TLC",
    "P21": "TLA+ specification; every match offered by the real library to user code that drives it is validated against it by TLC",
    "P22": "TLA+ specification with parsers that report failures; recorded executions of real ones validated against it by TLC",
    "P17": "TLA+ model of parser histories; histories generated by TLC replayed on the real library, results judged by TLC",
    "P18": "TLA+ specification; generated parser! programs compiled against the library, their recorded results validated by TLC",
}
NOTE = {
    "default": "TLC checks that the step-by-step machine computes the declared meaning and keeps its invariants for all generated grammar/text "
               "cases (no bound on depth of backtracking, bounded grammar and text size); the real library is bound to the specification by "
               "validating recorded runs on the property's exhaustive families and on seeded random cases. Inputs outside those are not covered.",
    "P17": "TLC enumerates or simulates histories of building, borrowing, moving, dropping, parsing (also from inside closures and on several "
           "threads); each is replayed on the real library and every parse in it is judged against the specification. Histories are bounded in length.",
    "P18": "Programs are generated from the documented syntax and compiled for real; each program's results on several texts are judged by TLC "
           "against the meaning of the syntax. The set of programs is bounded (seeded).",
}
ALL = [f"P{i:02d}" for i in range(1, 23)]
PENDING = {k: v for k, v in {"P17": "", "P18": ""}.items()
           if not os.path.exists(os.path.join(HERE, "lib", {"P17": "history.py", "P18": "surface.py"}[k]))}
m = {"version": 1,
     "setup_cmd": "python3 lib/setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}",
                 "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                 "technique": TECH.get(p, TECH["default"]), "level": "model_checking",
                 "level_note": NOTE.get(p, NOTE["default"])} for p in ALL if p not in PENDING],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in PENDING]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
