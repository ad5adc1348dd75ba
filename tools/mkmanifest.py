"""Write MANIFEST.json from properties.jsonl and the registered harnesses."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import pyvc  # noqa: E402,F401
from contracts import reg  # noqa: E402

PY = "/opt/venv/bin/python"
reg.load()
NOTES = {}
p = os.path.join(HERE, "tools", "level_notes.json")
if os.path.exists(p):
    NOTES = json.load(open(p))
checks, levels = [], {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    prop = json.loads(line)["id"]
    hs = sorted(h.name for h in reg.for_prop(prop, "thorough"))
    levels[prop] = "proof" if hs else "exploration"
    note = NOTES.get(prop, "")
    if hs:
        note = ("Verification conditions generated from the current source of the functions are discharged by z3 for all inputs within each harness's precondition. "
                "A bounded run of the real code on generated inputs accompanies the proof, supplies failing inputs and is never counted as proved. "
                "Assumptions and contracts that are used but not proved are listed in the evidence file. " + note)
    else:
        note = "Bounded: the real code is run on generated inputs and compared with an oracle; nothing is proved. " + note
    c = {"property": prop, "quick_cmd": f"{PY} check.py {prop}", "thorough_cmd": f"{PY} check.py {prop}", "evidence_file": f"evidence/{prop}.json",
         "technique": "contracts on the real functions, verification conditions generated from their source, z3" if hs else "bounded check standing in for contracts",
         "level": levels[prop], "level_note": note.strip()}
    if hs:
        c["theorems"] = hs
    checks.append(c)
json.dump({"version": 1, "setup_cmd": f"{PY} selftest.py", "checks": checks, "not_applicable": [],
           "notes": "check.py PROPERTY decides one property; check.py --replay FILE runs a recorded failure again. known-findings.txt lists the defects found and fixed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(levels, open(os.path.join(HERE, "levels.json"), "w"), indent=0)
