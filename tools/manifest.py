#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TLA = "TLA+ specification checked with TLC; generated call histories replayed on real pycid, TLC trace validation of the records"
HIST = "explicit TLA+ state machine (Api) model checked with TLC; histories drawn by TLC from it (Hist) and by a seeded generator replayed on real pycid objects, TLC trace validation of state and answers after every call"
GRAPH = "TLA+ definitions model checked exhaustively on small diagrams with TLC; diagrams enumerated by TLC (Diagrams) and random ones replayed on real pycid, TLC trace validation"
GAME = "exact rational game semantics in TLA+; generated games solved/exported by real pycid, returned profiles and trees judged by TLC"
TECH = {"C05": HIST, "C06": HIST, "C07": HIST, "C08": HIST, "C03": HIST, "C04": HIST, "C10": GRAPH, "C11": GRAPH, "C12": GRAPH,
        "C13": GRAPH, "C09": GRAPH, "C19": GRAPH, "C16": GAME, "C17": GAME, "C18": GAME, "C15": GAME}
NOTE = ("Every recorded call is judged exactly (rational arithmetic, tolerance 1e-7 on pycid's floats) by TLC against the "
        "specification; inputs are generated, so the guarantee covers the explored sessions only. Trusts TLC, the projection in "
        "harness/driver.py, and pgmpy/networkx/pygambit only as far as their results are compared.")
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append(dict(property=p, quick_cmd=f"python3 harness/check.py {p} --tier quick",
                       thorough_cmd=f"python3 harness/check.py {p} --tier thorough",
                       evidence_file=f"evidence/{p}.json", technique=TECH.get(p, TLA), level="model_checking", level_note=NOTE))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[],
               notes="No hooks: the public API and the model objects expose the abstract state. Specification in spec/ (TLA+), harness in harness/, see DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
