"""mkseed.py SPEC.py [ID ...]: plants the changes listed in SPEC (a list SEEDS
of dicts id, property, file, edits [(old, new)], needs, breaks, demo, gurobi)
in a scratch copy of /repo, runs their demonstrations on both trees, the
stable tests and the property's check."""
import json
import os
import runpy
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/repo2"
SH = """d=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD:$d" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$d/demo.py"
"""


def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


spec = runpy.run_path(sys.argv[1])["SEEDS"]
for s in spec:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    run("git -C %s checkout -q -- ." % W)
    for f, old, new in s["edits"]:
        p = os.path.join(W, "neural_network_lyapunov", f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(run(
        "git -C %s diff" % W).stdout)
    json.dump({"property": s["property"], "needs": s["needs"],
               "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"))
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    if s.get("gurobi", True):
        shutil.copy("/tmp/sd/gurobipy.py", d)
    bug = run("bash %s/demo.sh" % d, cwd=W)
    chk = run("VERIF_REPO=%s /opt/venv/bin/python run.py %s" % (
        W, s["property"]), cwd=V)
    run("git -C %s checkout -q -- ." % W)
    clean = run("bash %s/demo.sh" % d, cwd=W)
    print(s["id"], s["property"], "clean", clean.returncode, "bug",
          bug.returncode, "check", chk.returncode, flush=True)
    if clean.returncode:
        print(clean.stdout[-1500:])
    if not bug.returncode or "Error" in bug.stdout and \
            "AssertionError" not in bug.stdout:
        print(bug.stdout[-800:])
    print("   ", [q for q in chk.stdout.splitlines() if q.startswith(
        ("VIOLATION", "INCONC"))][:2], flush=True)
