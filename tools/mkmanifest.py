"""Writes MANIFEST.json: a check for each properties.jsonl line that has a
checks/<id>.py, the others under not_applicable."""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = ("symbolic execution of the Python source (tensor, array and "
        "mixed-integer-program operations on solver terms), verification "
        "conditions decided by z3 (cvc5 as second solver), counterexamples "
        "replayed on the real code")
PY = "/opt/venv/bin/python run.py "
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if i in NA or not os.path.exists(os.path.join(R, "checks", i + ".py")):
        na.append({"property": i, "reason": NA.get(
            i, "no check built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": PY + i + " --tier quick",
        "thorough_cmd": PY + i + " --tier thorough",
        "technique": TECH,
        "level": "other",
        "level_note": "Bounded: every value of the symbolic inputs within the "
        "stated box, sizes and fixed structural choices; see BOUNDS and "
        "ASSUMPTIONS in checks/%s.py and the evidence file." % i})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python run.py --selftest",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the checks import its modules "
     "and execute them on symbolic tensors and arrays. gurobipy is not "
     "installed here; programs are built against a stand-in that records "
     "them."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
