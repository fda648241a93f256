"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import parts
T = "TLA+ state machine (TLC) + trace validation of real runs"
TR = "TLA+ specification (TLC) of the file format + validation of real output files"
NOTE = ("TLC steps the specification through each program and compares every observable of the real run; "
        "generated programs sample the input space, seeded. Trusts TLC and the harness's rendering and parsing.")
NOT = {}
def tech(p): return TR if p in ("C17", "C18", "C19", "C20", "C24") else T
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 harness/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 harness/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + p,
                 "technique": tech(p), "level": "model_checking", "level_note": NOTE + getattr(parts, "NOTES", {}).get(p, "")} for p in ids if p in parts.PARTS],
     "not_applicable": [{"property": p, "reason": NOT.get(p, "its module of the specification is not written yet")} for p in ids if p not in parts.PARTS]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(m["checks"]), "checks")
