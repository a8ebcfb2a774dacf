"""linecov.py DIR: with VERIF_COV=DIR set while the checks ran, lists the
lines (and one-sided branches) of functions under check that no harness
executes."""
import ast
import glob
import os
import sys
R = os.environ.get("VERIF_REPO", "/repo")
lines, br = {}, {}
for f in glob.glob(sys.argv[1] + "/*"):
    for q in set(open(f)):
        if q.startswith("LINE "):
            p, n = q[5:].strip().rsplit(":", 1)
            lines.setdefault(p, set()).add(int(n))
        elif q.startswith("BR "):
            p, a, b = q[3:].strip().rsplit(":", 2)
            if "None" not in (a, b):
                br.setdefault(p, {}).setdefault(int(a), set()).add(int(b))
for p in sorted(lines):
    src = open(os.path.join(R, p)).read()
    tree = ast.parse(src)
    L = src.split("\n")
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        body = [s for s in ast.walk(fn) if isinstance(s, ast.stmt) and
                s is not fn and not isinstance(s, (ast.FunctionDef,))
                and not (isinstance(s, ast.Expr) and
                         isinstance(s.value, ast.Constant))]
        if not any(s.lineno in lines[p] for s in body):
            continue
        for s in sorted(body, key=lambda s: s.lineno):
            span = range(s.lineno, (s.body[0].lineno if hasattr(
                s, "body") and s.body else s.end_lineno + 1))
            if not any(n in lines[p] for n in span) and \
                    not isinstance(s, (ast.Raise, ast.Assert, ast.Pass)):
                print("%s:%d %s: %s" % (p, s.lineno, fn.name,
                                        L[s.lineno - 1].strip()[:80]))
        for s in body:
            if isinstance(s, ast.If) and not s.orelse:
                d = br.get(p, {}).get(s.lineno)
                # condition never false
                if d is not None and len(d) == 1 and \
                        s.body[0].lineno in d:
                    print("%s:%d %s: always true: %s" % (
                        p, s.lineno, fn.name, L[s.lineno - 1].strip()[:70]))
