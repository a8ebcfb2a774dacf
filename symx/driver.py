"""Runs the harnesses of a property and reports."""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    def __init__(self, fn, name=None, bounds="", encodes=(), tier="quick",
                 samples=2, budget=None, **cfg):
        self.fn = fn
        self.name = name or fn.__name__
        self.bounds = bounds
        self.encodes = list(encodes)
        self.tier = tier        # "quick": both tiers; "thorough": only there
        self.samples = samples
        self.cfg = cfg
        self.budget = budget


class Registry(list):
    def add(self, name=None, bounds="", tier="quick", samples=2, budget=None,
            **cfg):
        def deco(fn):
            self.append(Harness(fn, name, bounds, (), tier, samples, budget,
                                **cfg))
            return fn
        return deco

    def put(self, fn, name, bounds="", tier="quick", samples=2, budget=None,
            **cfg):
        self.append(Harness(fn, name, bounds, (), tier, samples, budget,
                            **cfg))


def load_check(pid):
    path = os.path.join(ROOT, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def _record_functions(repo, seen):
    """Names of the /repo functions the symbolic run executes."""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "verif")
    except ValueError:
        return

    def on(code, off):
        if code.co_filename.startswith(repo):
            seen.add("%s:%s" % (os.path.relpath(code.co_filename, repo),
                                code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on)
    ev = mon.events.PY_START
    if os.environ.get("VERIF_COV"):     # for tools/linecov.py
        def line(code, no):
            if code.co_filename.startswith(repo):
                seen.add("LINE %s:%d" % (os.path.relpath(
                    code.co_filename, repo), no))
            return mon.DISABLE

        def br(code, off, dest):
            if code.co_filename.startswith(repo):
                d = {o: n for a, b, n in code.co_lines()
                     for o in range(a, b)}
                seen.add("BR %s:%s:%s" % (os.path.relpath(
                    code.co_filename, repo), d.get(off), d.get(dest)))
        mon.register_callback(tid, mon.events.LINE, line)
        mon.register_callback(tid, mon.events.BRANCH, br)
        ev |= mon.events.LINE | mon.events.BRANCH
    mon.set_events(tid, ev)


def worker(h, tier, seed, conn, budget):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        import torch
        torch.set_num_threads(1)
        import warnings
        warnings.simplefilter("ignore")
        from symx import harness as hs, loader
        import random
        sys.stdout = open(os.devnull, "w")
        cfg = dict(h.cfg)
        cfg["tier"] = tier
        cfg["budget"] = budget
        if tier == "thorough":
            cfg.setdefault("timeout", 300)
        seen = set()
        _record_functions(loader.REPO, seen)
        res = hs.run_symbolic(h.fn, cfg)
        res["functions"] = sorted(seen)
        if res["status"] == "candidate":
            r = hs.replay(h.fn, res["violation"], cfg)
            res["replay"] = r
        # the encoding against the real arithmetic, at a few points
        ok = 0
        tried = 0
        if res["status"] in ("ok", "incomplete", "unknown", "unsupported"):
            rnd = random.Random(seed * 1000 + 17)
            for k in range(h.samples * 8):
                if ok >= h.samples:
                    break
                tried += 1
                f, exc, tr, af = hs.run_concrete(
                    h.fn, _RandomAssign(rnd), cfg)
                if f or (exc is not None):
                    res["mismatch"] = {"failed": f, "exc": exc, "trace": tr,
                                       "assignment": dict(
                                           _RandomAssign.last)}
                    break
                if not af:
                    ok += 1
        res["validated"] = ok
        conn.send(res)
    except BaseException:
        conn.send({"status": "error", "why": traceback.format_exc(),
                   "stats": {}, "paths": 0, "covered": [], "unknown": [],
                   "wall_s": 0})
    conn.close()


class _RandomAssign:
    """Assignment that draws a value on first use of a name."""
    last = {}

    def __init__(self, rnd):
        self.rnd = rnd
        self.d = {}
        _RandomAssign.last = self.d

    def get(self, name, default=None):
        if name not in self.d:
            if isinstance(default, bool):
                self.d[name] = self.rnd.random() < .5
            else:
                d = default if isinstance(default, float) else 0.
                self.d[name] = d + self.rnd.uniform(-1, 1)
        return self.d[name]

    def items(self):
        return self.d.items()


def load_known():
    """[(property, harness, msg prefix)] of recorded findings."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> harness=<name> what=<text>
                d = {}
                rest = line[len("finding:"):].strip()
                for key in ("property", "harness"):
                    tok, _, rest = rest.partition(" ")
                    k, _, v = tok.partition("=")
                    d[k] = v
                d["what"] = rest.strip()
                if d["what"].startswith("what="):
                    d["what"] = d["what"][5:]
                out.append(d)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, ROOT)
    t0 = time.time()
    if a.selftest:
        return selftest()
    mod = load_check(a.property)
    if a.replay:
        return do_replay(mod, a.replay)
    hs = [h for h in mod.HARNESSES
          if (h.tier == "quick" or tier == "thorough") and
          (a.only is None or a.only in h.name)]
    total = float(os.environ.get("VERIF_BUDGET", 780 if tier == "quick"
                                 else 6 * 3600))
    results = run_all(hs, tier, seed, a.jobs, t0 + total, a.v)
    return report(mod, a, hs, results, tier, seed, t0)


def selftest():
    """The interpreter, the solvers and the stand-ins are usable."""
    from symx import harness, loader
    import shutil
    loader.install()
    x = harness.z3.Real("x")
    s = harness.z3.Solver()
    s.add(x * x < 0)
    ok = s.check() == harness.z3.unsat and shutil.which("cvc5") is not None
    loader.module("utils")
    print("selftest", "ok" if ok else "failed")
    return 0 if ok else 1


def run_all(hs, tier, seed, jobs, deadline, verbose):
    ctx = mp.get_context("fork")
    from symx import harness  # noqa: F401  (import once, before forking)
    from symx import npshim, loader  # noqa: F401
    loader.install()
    import torch._dynamo  # noqa: F401  (imported lazily by torch otherwise)
    todo = list(enumerate(hs))
    running = {}
    results = [None] * len(hs)
    while todo or running:
        while todo and len(running) < jobs:
            i, h = todo.pop(0)
            r, w = ctx.Pipe(False)
            left = max(5., deadline - time.time())
            # a harness may use at most its own budget
            b = min(h.budget or left, left)
            p = ctx.Process(target=worker, args=(h, tier, seed, w, b))
            p.start()
            w.close()
            running[i] = (p, r, time.time(), b)
        mp.connection.wait([v[1] for v in running.values()], timeout=1)
        for i in list(running):
            p, r, ts, b = running[i]
            if r.poll():
                try:
                    results[i] = r.recv()
                except EOFError:
                    results[i] = {"status": "error", "why": "worker died"}
            elif not p.is_alive():
                results[i] = {"status": "error", "why": "worker died (rc %s)"
                              % p.exitcode}
            elif time.time() - ts > b + 30 or time.time() > deadline + 30:
                p.kill()
                results[i] = {"status": "incomplete", "why": "time limit"}
            else:
                continue
            p.join(5)
            if p.is_alive():
                p.kill()
            del running[i]
            if verbose:
                rr = results[i]
                print("  [%s] %s %.1fs paths=%s %s %s" % (
                    rr["status"], hs[i].name, rr.get("wall_s", 0),
                    rr.get("paths"), rr.get("stats"), rr.get("why", "")),
                    flush=True)
                if rr.get("trace") or rr["status"] == "error":
                    print((rr.get("trace") or rr.get("why"))[-900:])
                if rr.get("mismatch"):
                    print("  MISMATCH", rr["mismatch"]["failed"],
                          rr["mismatch"]["exc"],
                          rr["mismatch"]["trace"][-700:],
                          str(rr["mismatch"]["assignment"])[:500])
                if rr["status"] == "candidate":
                    print("  CANDIDATE", rr["violation"]["msg"],
                          rr["violation"].get("trace", "")[-700:], "replay:",
                          str(rr["replay"] or ("NOT REPRODUCED", rr[
                              "violation"]["candidates"][:2]))[:900])
                if rr.get("unknown"):
                    print("  UNKNOWN", rr["unknown"])
    return results


def audit(hs, results):
    """Goals (cover labels) some harness of a family reaches and another of
    the same family does not: a sign of a vacuous harness."""
    fam = {}
    for h, r in zip(hs, results):
        c = set(r.get("covered") or [])
        fam.setdefault(h.fn.__qualname__, set()).update(c)
    for h, r in zip(hs, results):
        miss = fam[h.fn.__qualname__] - set(r.get("covered") or [])
        if miss:
            print("AUDIT %s does not cover %s" % (h.name, sorted(miss)))


def report(mod, a, hs, results, tier, seed, t0):
    if os.environ.get("VERIF_AUDIT"):
        audit(hs, results)
    pid = a.property
    known = [k for k in load_known() if k["property"] == pid]
    viol = []
    errors = []
    hard = 0
    knownhits = []
    agg = {}
    funcs = set()
    for h, r in zip(hs, results):
        for k, v in (r.get("stats") or {}).items():
            agg[k] = agg.get(k, 0) + v
        fs = r.get("functions") or []
        if os.environ.get("VERIF_COV"):
            with open(os.path.join(os.environ["VERIF_COV"], a.id
                                   if hasattr(a, "id") else "cov"),
                      "a") as cf:
                cf.write("".join(q + "\n" for q in fs))
            fs = [q for q in fs if not q.startswith(("LINE ", "BR "))]
        funcs.update(fs)
        st = r["status"]
        bad = None
        if st == "candidate":
            if r.get("replay"):
                bad = dict(r["replay"], msg=r["violation"]["msg"])
            else:
                errors.append("%s: counterexample to '%s' does not reproduce "
                              "on the real code" % (h.name,
                                                    r["violation"]["msg"]))
        elif r.get("mismatch"):
            mm = r["mismatch"]
            bad = {"assignment": mm["assignment"],
                   "failed": mm["failed"] or ["exception " + str(mm["exc"])],
                   "trace": mm["trace"],
                   "msg": "; ".join(mm["failed"]) or
                   "exception %s" % mm["exc"]}
        elif st == "ok":
            if not r.get("paths"):
                errors.append("%s: no feasible path (vacuous)" % h.name)
        else:
            if st == "error":
                hard += 1
            errors.append("%s: %s %s" % (h.name, st, r.get("why", "") or
                                         r.get("unknown", "")))
        if bad is not None:
            k = [k for k in known if k["harness"] == h.name and
                 bad["msg"].startswith(k["what"].split(" :: ")[0])]
            if k:
                knownhits.append((h, k[0], bad))
            else:
                viol.append((h, bad))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    for h, k, bad in knownhits:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, h.name, k["what"]))
    for h, bad in viol:
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (
            pid, "".join(c if c.isalnum() or c in "-_" else "_"
                         for c in h.name)))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": h.name,
                       "msg": bad["msg"], "failed": bad["failed"],
                       "assignment": {k: v for k, v in
                                      bad["assignment"].items()},
                       "trace": bad.get("trace", "")}, f, indent=1)
        print("  %s: %s" % (h.name, bad["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for e in errors:
        print("INCONCLUSIVE property=%s %s" % (pid, e.splitlines()[-1]
                                               if e else e))
    samples = []
    for h, r in list(zip(hs, results))[:6]:
        samples.append({"harness": h.name, "bounds": h.bounds,
                        "paths": r.get("paths"), "status": r["status"],
                        "solver": r.get("stats")})
    stubs = list(getattr(mod, "ASSUMPTIONS", []))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the functions listed under "
            "functions_encoded, imported from %s on this run; every "
            "obligation was decided by z3 (cvc5 as fallback) for all values "
            "within the stated bounds. %s" % (
                os.environ.get("VERIF_REPO", "/repo"),
                getattr(mod, "BOUNDS", "")),
            "functions_encoded": sorted(funcs),
            "bounds": {h.name: h.bounds for h in hs},
            "harnesses": len(hs),
            "harnesses_ok": sum(r["status"] == "ok" for r in results),
            "paths": sum(r.get("paths") or 0 for r in results),
            "obligations": agg.get("obligations", 0),
            "closed_by_normal_form": agg.get("closed_by_normal_form", 0),
            "queries": agg.get("queries", 0) + agg.get("cvc5_queries", 0),
            "branch_feasibility_queries": agg.get("fork_queries", 0),
            "solver_s": round(agg.get("solver_s", 0.), 3),
            "traces_validated_against_impl": sum(r.get("validated") or 0
                                                 for r in results),
            "covered": sorted({c for r in results
                               for c in r.get("covered") or []}),
            "samples": samples,
            "inconclusive": errors,
            "known_findings": [k["what"] for _, k, _ in knownhits],
        },
        "assumptions": stubs,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d obligations, %d queries, "
          "%.1fs solver, %.1fs wall" % (
              pid, tier, len(hs), ev["coverage"]["paths"],
              ev["coverage"]["obligations"], ev["coverage"]["queries"],
              ev["coverage"]["solver_s"], ev["wall_s"]))
    if viol:
        return 1
    # undecided harnesses are reported above and in the evidence; with more
    # than a third of them undecided the run says nothing
    if errors and (hard or len(errors) * 3 > len(hs)):
        return 2
    return 0


def do_replay(mod, path):
    from symx import harness as hs
    d = json.load(open(path))
    h = [x for x in mod.HARNESSES if x.name == d["harness"]][0]
    f, exc, tr, af = hs.run_concrete(h.fn, d["assignment"], dict(
        h.cfg, tier="quick"))
    print("failed:", f, "exception:", exc, "assumption failed:", af)
    print(tr)
    return 1 if (f or exc) else 0
