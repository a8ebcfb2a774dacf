"""Path exploration, obligations and concrete replay."""
import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import torch

from symx import num, loader, exists as ex
from symx import tensor as st
from symx.num import SR, SB, Unsupported, band, bor, bnot, bz, ite, z3


class AssumeFailed(Exception):
    pass


class Infeasible(Exception):
    pass


class StopHarness(Exception):
    pass


F64 = torch.float64


class Stats(dict):
    def add(self, k, v=1):
        self[k] = self.get(k, 0) + v


def _solver(timeout):
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    return s


def _linear(exprs, limit=20000):
    """True if no product of non-constants occurs."""
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_MUL:
            if sum(not z3.is_rational_value(c) for c in e.children()) > 1:
                return False
        elif k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            return False
        stack.extend(e.children())
    return True


class Sym:
    """Symbolic side of a harness: one instance per path."""
    symbolic = True

    def __init__(self, prefix, stats, cfg):
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.pc = []
        self.assumed = []
        self.known = {}
        self.inputs = {}
        self.stats = stats
        self.cfg = cfg
        self.covered = []
        self.violation = None
        self.unknown = []
        self.rng = random.Random(12345)
        self.fork_solver = None
        self.fork_ax = set()

    # ---- inputs
    def real(self, name, lo=-2., hi=2.):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        v = SR.var(name)
        self.inputs[name] = v
        if lo is not None:
            self._assume(v >= lo)
        if hi is not None:
            self._assume(v <= hi)
        return v

    def reals(self, name, shape, lo=-2., hi=2.):
        """Object ndarray of fresh reals."""
        if isinstance(shape, int):
            shape = (shape, )
        a = np.empty(shape, dtype=object)
        lo_a = np.broadcast_to(np.array(lo, dtype=object), shape)
        hi_a = np.broadcast_to(np.array(hi, dtype=object), shape)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), lo_a[i],
                             hi_a[i])
        return a

    def tensor(self, name, shape, lo=-2., hi=2., dtype=F64, state=False):
        t = self.as_tensor(self.reals(name, shape, lo, hi), dtype)
        return t if state else self.hold(name, t)

    def array(self, name, shape, lo=-2., hi=2.):
        from symx.npshim import SymArray
        return self.hold(name, self.reals(name, shape, lo, hi).view(SymArray))

    # ---- what the code is given stays as it was
    # (state=True: it is state which the code is to change)
    def hold(self, name, t):
        self.__dict__.setdefault("held", []).append(
            (name, t, np.array(self.elems(t), copy=True)))
        return t

    def check_held(self):
        for name, t, o in self.__dict__.get("held", ()):
            n = self.elems(t)
            if n.shape != o.shape or any(
                    a is not b for a, b in zip(n.reshape(-1), o.reshape(-1))):
                self.eq(n, o, "input %s was changed" % name)

    def boolean(self, name):
        b = z3.Bool(name)
        self.inputs[name] = SB(b)
        return SB(b)

    def binary(self, name):
        v = SR.var(name)
        self.inputs[name] = v
        self._assume(bor(v == 0, v == 1))
        return v

    def choice(self, name, n):
        """Concrete integer in range(n), one path for each value."""
        v = self.real(name, 0, n - 1)
        for k in range(n - 1):
            if bool(v == k):
                return k
        self._assume(v == n - 1)
        return n - 1

    def as_tensor(self, a, dtype=F64):
        if isinstance(a, torch.Tensor):
            return a
        return st.make_tensor(np.asarray(a, dtype=object) if isinstance(
            a, np.ndarray) else a, dtype)

    def const(self, a, dtype=F64):
        return st.make_tensor(a if isinstance(a, torch.Tensor) else
                              torch.tensor(a, dtype=dtype), dtype)

    def nparray(self, a):
        from symx import npshim
        return npshim.to_obj(a) if not isinstance(
            a, st.SymTensor) else st.sym_to_numpy(a)

    def scalar(self, t):
        return st.t_item(t) if isinstance(t, st.SymTensor) else SR.const(
            t.item() if isinstance(t, torch.Tensor) else t)

    def elems(self, a):
        """Object ndarray of SR/SB."""
        if isinstance(a, torch.Tensor):
            return st.obj(a)
        if isinstance(a, (SR, SB, bool, int, float, Fraction, np.generic)):
            o = np.empty((), dtype=object)
            o[()] = a
            return o
        return st.to_obj_array(a)

    # ---- assumptions
    def _assume(self, c):
        if isinstance(c, SB):
            self.assumed.append(c.e)
            self.known[c.e.get_id()] = (c.e, True)
            if self.fork_solver is not None:
                self._fs_add(c.e)
        elif not c:
            raise Infeasible()

    def assume(self, c):
        for v in self._flat_bool(c):
            self._assume(v)

    def _flat_bool(self, c):
        if isinstance(c, (list, tuple)):
            r = []
            for v in c:
                r += self._flat_bool(v)
            return r
        if isinstance(c, (torch.Tensor, np.ndarray)):
            return list(self.elems(c).reshape(-1))
        return [c]

    def assumptions(self):
        return self.assumed + self.pc

    # ---- forking
    def _fs_add(self, e):
        s = self.fork_solver
        for a in num.collect_axioms([e]):
            if a.get_id() not in self.fork_ax:
                self.fork_ax.add(a.get_id())
                s.add(a)
        s.add(e)

    def decide(self, sb):
        e = sb.e
        neg = z3.is_not(e)
        base = e.arg(0) if neg else e
        k = self.known.get(base.get_id())
        if k is not None:
            return k[1] != neg
        n = len(self.taken)
        if n < len(self.prefix):
            val = self.prefix[n]
        else:
            if self.fork_solver is None:
                self.fork_solver = z3.Solver()
                self.fork_solver.set("timeout", int(
                    self.cfg.get("fork_timeout", 5) * 1000))
                self.fork_ax = set()
                for a in self.assumptions():
                    self._fs_add(a)
            t = time.time()
            s = self.fork_solver
            res = []
            for v in (True, False):
                s.push()
                q = base if v else z3.Not(base)
                for a in num.collect_axioms([q]):
                    s.add(a)
                s.add(q)
                res.append(s.check())
                s.pop()
                self.stats.add("fork_queries")
            self.stats.add("solver_s", time.time() - t)
            can_t, can_f = [r != z3.unsat for r in res]
            if not can_t and not can_f:
                raise Infeasible()
            val = can_t
            if can_t and can_f:
                self.pending.append(self.taken + [False])
            elif not can_t:
                val = False
            if len(self.taken) > self.cfg.get("max_depth", 400):
                raise Unsupported("path too deep")
        self.taken.append(val)
        lit = base if val else z3.Not(base)
        self.pc.append(lit)
        self.known[base.get_id()] = (base, val)
        if self.fork_solver is not None:
            self._fs_add(lit)
        return val != neg

    # ---- queries
    def check(self, extra, timeout=None):
        """sat/unsat/unknown of assumptions + extra; returns (res, model)."""
        timeout = timeout or self.cfg.get("timeout", 60)
        base = self.assumptions() + list(extra)
        ax = num.collect_axioms(base)
        t = time.time()
        s = _solver(timeout)
        s.add(*base, *ax)
        r = s.check()
        m = s.model() if r == z3.sat else None
        self.stats.add("queries")
        if r == z3.unknown:
            for tac in ("qfnra-nlsat", "smt"):
                try:
                    s2 = z3.Tactic(tac).solver()
                    s2.set("timeout", int(timeout * 1000))
                    s2.add(*base, *ax)
                    r = s2.check()
                    self.stats.add("queries")
                    if r == z3.sat:
                        m = s2.model()
                    if r != z3.unknown:
                        break
                except z3.Z3Exception:
                    pass
        if r == z3.unknown:
            c = _cvc5(base + ax, timeout)
            self.stats.add("cvc5_queries")
            if c == "unsat":
                r = z3.unsat
        self.stats.add("solver_s", time.time() - t)
        return r, m

    def _assign(self, m):
        out = {}
        for n, v in self.inputs.items():
            if isinstance(v, SB):
                out[n] = bool(m.eval(v.e, model_completion=True))
                continue
            out[n] = _val(m.eval(v.z(), model_completion=True))
        # angles: make the free variable agree with its (sin, cos) pair
        alt = dict(out)
        ch = False
        for s, sn, cs in num._trig_args:
            items = [(mm, k) for mm, k in s.p.items() if mm != ()]
            if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][
                    1] == 1:
                nm = str(num._atoms[items[0][0][0][0]])
                if nm in out:
                    sv = _val(m.eval(sn.z(), model_completion=True))
                    cv = _val(m.eval(cs.z(), model_completion=True))
                    ang = math.atan2(float(sv), float(cv))
                    c0 = s.p.get((), Fraction(0))
                    a = (ang - float(c0)) / float(items[0][1])
                    alt[nm] = a
                    ch = True
        return [out, alt] if ch else [out]

    def _fail(self, msg, models):
        self.violation = {"msg": msg, "candidates": models}
        raise StopHarness()

    def _decide(self, msg, viol_at, margins):
        """viol_at(margin) -> z3 violation formula (list of disjuncts)."""
        f0 = viol_at(margins[0])
        self.stats.add("obligations")
        if f0 is None:
            self.stats.add("closed_by_normal_form")
            return
        r, m = self.check([f0])
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # a violation with a large margin may still be easy to find
            cands = []
            for mg in margins[1:]:
                f = viol_at(mg)
                if f is not None:
                    r2, m2 = self.check([f], timeout=20)
                    if r2 == z3.sat:
                        cands += self._assign(m2)
            if cands:
                self._fail(msg, cands)
            self.unknown.append(msg)
            return
        cands = []
        for mg in reversed(margins[1:]):
            f = viol_at(mg)
            if f is None:
                continue
            r2, m2 = self.check([f], timeout=20)
            if r2 == z3.sat:
                cands += self._assign(m2)
        cands += self._assign(m)
        self._fail(msg, cands)

    def true(self, c, msg):
        cs = self._flat_bool(c)
        bad = [bz(bnot(v)) for v in cs if v is not True]
        bad = [b for b in bad if not z3.is_false(b)]

        def viol(mg):
            return z3.Or(*bad) if bad else None
        self._decide(msg, viol, [0])

    def _pairs(self, a, b, msg):
        A, B = self.elems(a), self.elems(b)
        if A.shape != B.shape:
            if B.ndim == 0 or A.ndim == 0:
                A, B = np.broadcast_arrays(A, B)
            else:
                self.stats.add("obligations")
                r, m = self.check([])
                if r == z3.sat:
                    self._fail(msg + ": shape %s against %s" %
                               (A.shape, B.shape), self._assign(m))
                self.unknown.append(msg)
                return []
        return list(zip(A.reshape(-1), B.reshape(-1)))

    def eq(self, a, b, msg, tol=1e-6):
        prs = self._pairs(a, b, msg)
        diffs = []
        bools = []
        for x, y in prs:
            if isinstance(x, (SB, bool, np.bool_)) and isinstance(
                    y, (SB, bool, np.bool_)):
                q = z3.Xor(bz(x), bz(y))
                q = z3.simplify(q)
                if not z3.is_false(q):
                    bools.append(q)
                continue
            x, y = SR.const(x), SR.const(y)
            if _isinf(x) or _isinf(y):
                if not (_isinf(x) and _isinf(y) and (x.c == y.c or (
                        x.c != x.c and y.c != y.c))):
                    bools.append(z3.BoolVal(True))
                continue
            d = x - y
            if d.c is not None:
                if abs(d.c) > tol:
                    bools.append(z3.BoolVal(True))
                continue
            b = self.bound(d)
            if b is not None and b <= tol:
                continue
            diffs.append(d)

        def viol(mg):
            t = num._q(Fraction(mg))
            fs = list(bools)
            for d in diffs:
                fs.append(z3.Or(d.z() > t, d.z() < -t))
            if not fs:
                return None
            return z3.Or(*fs)
        self._decide(msg, viol, [tol, max(tol * 100, 1e-3), 1e-1])

    def le(self, a, b, msg, tol=1e-6):
        prs = self._pairs(a, b, msg)
        ds = []
        bad = []
        for x, y in prs:
            x, y = SR.const(x), SR.const(y)
            if _isinf(x) or _isinf(y):
                if not bool(x <= y):
                    bad.append(z3.BoolVal(True))
                continue
            d = x - y
            if d.c is not None:
                if d.c > tol:
                    bad.append(z3.BoolVal(True))
                continue
            ds.append(d)

        def viol(mg):
            fs = list(bad) + [d.z() > num._q(Fraction(mg)) for d in ds]
            return z3.Or(*fs) if fs else None
        self._decide(msg, viol, [tol, max(tol * 100, 1e-3), 1e-1])

    def ge(self, a, b, msg, tol=1e-6):
        self.le(b, a, msg, tol)

    def bound(self, d):
        """Interval bound on |d| when it is float noise, else None."""
        if d.c is not None:
            return abs(d.c)
        if max(abs(k) for k in d.p.values()) > 1e-8:
            return None
        s = Fraction(0)
        for m, k in d.p.items():
            t = abs(k)
            for i, e in m:
                nm = str(num._atoms[i])
                if nm.startswith(("sin!", "cos!")):
                    continue
                if nm in self.inputs:
                    t *= Fraction(10)**e
                else:
                    return None
            s += t
        return s

    def cover(self, msg, cond=True):
        """The point is reachable (guards against vacuity)."""
        if cond is False:
            return
        r, _ = self.check([bz(cond)] if isinstance(cond, SB) else [])
        if r == z3.sat:
            self.covered.append(msg)

    def fail(self, msg):
        """Reaching this point is a violation."""
        self.stats.add("obligations")
        r, m = self.check([])
        if r == z3.sat:
            self._fail(msg, self._assign(m))
        if r == z3.unknown:
            self.unknown.append(msg)
        raise Infeasible()

    # ---- mixed-integer programs
    def assign(self, model, fixed, tag="m", feasible=True):
        """Universally quantified decision variables of a program."""
        val = {}
        for v in model._vars:
            if v in fixed:
                val[v] = SR.const(fixed[v])
            else:
                n = "%s%d" % (tag, v._index)
                x = SR.var(n)
                self.inputs[n] = x
                val[v] = x
        if feasible:
            for c in model.feasible_conds(val):
                self._assume(c)
        return val

    def exists(self, model, fixed, msg, extra=None, rounds=400):
        """For all inputs there is a feasible completion (and extra rows)."""
        self.stats.add("obligations")
        fixed = {v: SR.const(x) for v, x in fixed.items()}
        rows, bins, cont = ex.rows_of(model, fixed)
        if extra is not None:
            idx = {v: i for i, v in enumerate(model._vars)}
            for co, rest, eq in extra:
                c2, r2 = {}, SR.const(rest)
                for v, c in co.items():
                    if v in fixed:
                        r2 = r2 + SR.const(c) * fixed[v]
                    else:
                        c2[idx[v]] = c2.get(idx[v], SR(Fraction(0))
                                            ) + SR.const(c)
                rows.append(ex.Row(c2, r2, eq))
        blocked = []
        for _ in range(rounds):
            r, m = self.check(blocked)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self.unknown.append(msg)
                return
            z = self._pattern(rows, bins, m)
            if z is None:
                if self._pattern(rows, bins, m, tol=Fraction(
                        1, 10**7)) is not None:
                    # feasible up to solver tolerance: cut the point off
                    self.unknown.append(msg + " (boundary)")
                    return
                self._fail(msg, self._assign(m))
            conds = ex.project(ex.fix_rows(rows, z), cont)
            if conds == [False]:
                raise Unsupported("projection disagrees with the solver")
            cz = [bz(c) for c in conds]
            self.stats.add("projections")
            if not cz:
                return
            blocked.append(z3.Not(z3.And(*cz)))
        self.unknown.append(msg)

    def _pattern(self, rows, bins, m, tol=Fraction(0)):
        s = _solver(60)
        names = {}

        def nm(v):
            if v not in names:
                names[v] = z3.Real("e!%d" % v)
            return names[v]

        def ev(x):
            if x.c is not None:
                return num._q(x.c)
            r = m.eval(x.z(), model_completion=True)
            if z3.is_algebraic_value(r):
                return num._q(Fraction(_val(r)))
            return r
        for r in rows:
            t = ev(r.rest)
            for v, c in r.co.items():
                t = t + ev(c) * nm(v)
            if r.eq:
                if tol:
                    s.add(t <= num._q(tol), t >= -num._q(tol))
                else:
                    s.add(t == 0)
            else:
                s.add(t <= num._q(tol))
        for b in bins:
            s.add(z3.Or(nm(b) == 0, nm(b) == 1))
        self.stats.add("queries")
        t = time.time()
        r = s.check()
        self.stats.add("solver_s", time.time() - t)
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            raise Unsupported("pattern query unknown")
        mm = s.model()
        return {b: Fraction(1) if z3.is_true(mm.eval(
            nm(b) == 1, model_completion=True)) else Fraction(0)
            for b in bins}


def _isinf(x):
    return x.c is not None and isinstance(x.c, float)


def _val(r):
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if z3.is_algebraic_value(r):
        a = r.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_int_value(r):
        return float(r.as_long())
    raise Unsupported("model value %s" % r)


def _cvc5(formulas, timeout):
    import subprocess
    import tempfile
    import os
    s = z3.Solver()
    s.add(*formulas)
    txt = "(set-logic QF_NRA)\n" + "\n".join(
        l for l in s.to_smt2().splitlines() if not l.startswith("(set-"))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2",
                                     delete=False) as f:
        f.write(txt)
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000),
                            f.name], capture_output=True, text=True,
                           timeout=timeout + 5).stdout
        return o.strip().splitlines()[0] if o.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


class Con:
    """Concrete side: replays a candidate against the real code."""
    symbolic = False

    def __init__(self, assignment, cfg):
        self.a = assignment
        self.cfg = cfg
        self.failed = []
        self.rng = random.Random(12345)
        self.used = {}

    def real(self, name, lo=-2., hi=2.):
        v = float(self.a.get(name, 0.5 * ((lo or 0) + (hi or 0))))
        # rounding may push a model value just outside its box
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        self.used[name] = v
        return v

    def reals(self, name, shape, lo=-2., hi=2.):
        if isinstance(shape, int):
            shape = (shape, )
        a = np.empty(shape)
        lo_a = np.broadcast_to(np.array(lo, dtype=object), shape)
        hi_a = np.broadcast_to(np.array(hi, dtype=object), shape)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), lo_a[i],
                             hi_a[i])
        return a

    def tensor(self, name, shape, lo=-2., hi=2., dtype=F64, state=False):
        t = torch.tensor(self.reals(name, shape, lo, hi), dtype=dtype)
        return t if state else self.hold(name, t)

    def array(self, name, shape, lo=-2., hi=2.):
        return self.hold(name, self.reals(name, shape, lo, hi))

    hold = Sym.hold

    def check_held(self):
        for name, t, o in self.__dict__.get("held", ()):
            self.eq(self.elems(t), o, "input %s was changed" % name)

    def boolean(self, name):
        return bool(self.a.get(name, False))

    def binary(self, name):
        return 1. if self.a.get(name, 0.) >= .5 else 0.

    def choice(self, name, n):
        return min(max(int(round(self.a.get(name, 0.))), 0), n - 1)

    def as_tensor(self, a, dtype=F64):
        if isinstance(a, torch.Tensor):
            return a
        return torch.tensor(np.asarray(a, dtype=float) if isinstance(
            a, np.ndarray) else a, dtype=dtype)

    def const(self, a, dtype=F64):
        return a.clone() if isinstance(a, torch.Tensor) else torch.tensor(
            a, dtype=dtype)

    def nparray(self, a):
        if isinstance(a, torch.Tensor):
            return a.detach().numpy()
        return np.array(a, dtype=float)

    def scalar(self, t):
        return t.item() if isinstance(t, torch.Tensor) else float(t)

    def elems(self, a):
        if isinstance(a, torch.Tensor):
            return a.detach().numpy()
        if isinstance(a, SR):
            return np.array(float(a))
        if isinstance(a, (list, tuple)):
            return np.array([self.elems(v) for v in a])
        a = np.asarray(a)
        if a.dtype == object:
            a = np.array([float(v) for v in a.reshape(-1)]).reshape(a.shape)
        return a

    def _flat(self, c):
        if isinstance(c, (list, tuple)):
            r = []
            for v in c:
                r += self._flat(v)
            return r
        if isinstance(c, (torch.Tensor, np.ndarray)):
            return [bool(v) for v in np.asarray(
                c.detach().numpy() if isinstance(c, torch.Tensor) else c
            ).reshape(-1)]
        return [bool(c)]

    def assume(self, c):
        if not all(self._flat(c)):
            raise AssumeFailed()

    def true(self, c, msg):
        if not all(self._flat(c)):
            self.failed.append(msg)

    def _two(self, a, b, msg):
        A, B = self.elems(a), self.elems(b)
        if A.shape != B.shape and A.ndim and B.ndim:
            self.failed.append(msg)
            return None
        return A, B

    def eq(self, a, b, msg, tol=1e-6):
        p = self._two(a, b, msg)
        if p is None:
            return
        A, B = p
        if A.dtype == bool or B.dtype == bool:
            if np.any(A != B):
                self.failed.append(msg)
            return
        with np.errstate(invalid="ignore"):
            d = np.abs(A - B)
        d = np.where((A == B) | (np.isnan(A) & np.isnan(B)), 0., d)
        if np.any(~(d <= tol * .5)):
            self.failed.append(msg)

    def le(self, a, b, msg, tol=1e-6):
        p = self._two(a, b, msg)
        if p is not None and np.any(~(p[0] <= p[1] + tol * .5)):
            self.failed.append(msg)

    def ge(self, a, b, msg, tol=1e-6):
        self.le(b, a, msg, tol)

    def cover(self, msg, cond=True):
        pass

    def fail(self, msg):
        self.failed.append(msg)
        raise AssumeFailed()

    def assign(self, model, fixed, tag="m", feasible=True):
        val = {}
        for v in model._vars:
            if v in fixed:
                val[v] = SR.const(fixed[v])
            else:
                x = float(self.a.get("%s%d" % (tag, v._index), 0.))
                if v.vtype in "BI":
                    x = float(round(x))
                val[v] = SR(Fraction(x))
        if feasible:
            for c in model.feasible_conds(val, tol=Fraction(1, 10**7)):
                if not c:
                    raise AssumeFailed()
        return val

    def exists(self, model, fixed, msg, extra=None, rounds=0):
        fixed = {v: SR.const(x) for v, x in fixed.items()}
        rows, bins, cont = ex.rows_of(model, fixed)
        if extra is not None:
            idx = {v: i for i, v in enumerate(model._vars)}
            for co, rest, eq in extra:
                c2, r2 = {}, SR.const(rest)
                for v, c in co.items():
                    if v in fixed:
                        r2 = r2 + SR.const(c) * fixed[v]
                    else:
                        c2[idx[v]] = c2.get(idx[v], SR(Fraction(0))
                                            ) + SR.const(c)
                rows.append(ex.Row(c2, r2, eq))
        s = _solver(60)
        tol = num._q(Fraction(1, 10**6))
        for r in rows:
            t = r.rest.z()
            for v, c in r.co.items():
                t = t + c.z() * z3.Real("e!%d" % v)
            s.add(t <= tol)
            if r.eq:
                s.add(t >= -tol)
        for b in bins:
            s.add(z3.Or(z3.Real("e!%d" % b) == 0, z3.Real("e!%d" % b) == 1))
        if s.check() == z3.unsat:
            self.failed.append(msg)


class H:
    pass


def _setup_rng():
    import numpy as _n
    torch.manual_seed(0)
    _n.random.seed(0)
    random.seed(0)


def run_symbolic(fn, cfg):
    """Explore all paths of fn.  Returns a result dict."""
    stats = Stats()
    t0 = time.time()
    num.reset()
    stack = [[]]
    paths = 0
    covered = set()
    unknown = []
    res = {"status": "ok"}
    max_paths = cfg.get("max_paths", 3000)
    deadline = t0 + cfg.get("budget", 800)
    with loader.Symbolic():
        while stack:
            prefix = stack.pop()
            if paths >= max_paths or time.time() > deadline:
                res["status"] = "incomplete"
                res["why"] = "path budget" if paths >= max_paths else \
                    "time budget"
                break
            _setup_rng()
            if paths and paths % 200 == 0:
                num.reset()
            h = Sym(prefix, stats, cfg)
            num._forker[0] = h
            try:
                fn(h)
                h.check_held()
                paths += 1
            except StopHarness:
                res["status"] = "candidate"
                res["violation"] = h.violation
                break
            except (Infeasible, AssumeFailed):
                pass
            except Unsupported as e:
                res["status"] = "unsupported"
                res["why"] = str(e)
                res["trace"] = traceback.format_exc()
                break
            except Exception as e:  # the code under check raised
                paths += 1
                r, m = h.check([])
                if r == z3.unsat:
                    pass
                else:
                    res["status"] = "candidate"
                    res["violation"] = {
                        "msg": "unexpected exception %s: %s" %
                        (type(e).__name__, str(e)[:200]),
                        "exc": type(e).__name__,
                        "trace": traceback.format_exc(),
                        "candidates": h._assign(m) if m is not None else [{}]}
                    break
            finally:
                num._forker[0] = None
                covered.update(h.covered)
                unknown += h.unknown
                stack.extend(h.pending)
    res["paths"] = paths
    res["covered"] = sorted(covered)
    if unknown and res["status"] == "ok":
        res["status"] = "unknown"
    res["unknown"] = sorted(set(unknown))
    stats["elements"] = st.stats["elements"]
    res["stats"] = dict(stats)
    res["wall_s"] = time.time() - t0
    return res


def run_concrete(fn, assignment, cfg):
    """Run fn on the real code; returns (failed messages, exception name,
    trace, assumption_failed)."""
    with loader.Concrete():
        _setup_rng()
        h = Con(assignment, cfg)
        try:
            fn(h)
            h.check_held()
        except AssumeFailed:
            return h.failed, None, "", True
        except Unsupported:
            return h.failed, None, traceback.format_exc(), True
        except Exception as e:
            return h.failed, type(e).__name__, traceback.format_exc(), False
        return h.failed, None, "", False


def replay(fn, violation, cfg):
    """First candidate that reproduces on the real code, or None."""
    cands = list(violation["candidates"])
    rnd = random.Random(7)
    base = list(cands)
    for c in base:
        for scale in (1e-6, 1e-3, 1e-1, .5):
            for _ in range(4):
                cands.append({k: (v + scale * rnd.uniform(-1, 1)
                                  if isinstance(v, float) and not
                                  isinstance(v, bool) else v)
                              for k, v in c.items()})
    for c in cands:
        failed, exc, tr, af = run_concrete(fn, c, cfg)
        if failed:
            return {"assignment": c, "failed": failed}
        if exc is not None:
            # also accept a different exception type than the encoder saw
            return {"assignment": c, "failed": ["exception " + exc],
                    "trace": tr}
    return None
