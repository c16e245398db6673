"""Writes MANIFEST.json (run by hand after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Bounded: TLC enumerates the scenario classes of the specification (all single deviations and seeded random "
        "combinations, or the full product) and replays each on the real code; TLC then decides every clause on the "
        "recorded outcome with the specification's own arithmetic. Trusts TLC, java/Reals.java (IEEE doubles), "
        "PyCO2SYS as the environment and the drivers' recording.")
CLAIMED = {}
def claim(props, technique, note=NOTE):
    for p in props.split():
        CLAIMED[p] = (technique, note)
claim("C01 C02 C04 C09 C10 C11 C18 C19",
      "TLA+ specification of the titration chain; TLC generates scenarios, they are replayed on the code, and TLC validates the recorded executions against the specification")
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'harness'); import vlib; vlib.build_java()\"",
     "checks": [{"property": p, "quick_cmd": f"python3 checks/check.py {p} --quick",
                 "thorough_cmd": f"python3 checks/check.py {p} --thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": CLAIMED[p][0], "level": "model_checking",
                 "level_note": CLAIMED[p][1]} for p in ids if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in CLAIMED],
     "notes": "Specification language: TLA+ (TLC). No hooks in /repo are needed; /repo carries only fix: commits. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
