"""Trainers: losses, verdicts, counterexamples, parameters."""
import inspect
import types

import numpy as np
import torch
from symx.driver import Registry
from symx import loader, gurobi_stub as gs
from symx.lib import (AND, OR, NOT, vmax, mknet, l1, F64)

from symx.trainsys import (Milp, lin_loss, Step, same,
                           check_callback, Patched)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-2; one to three pooled solutions per program, "
          "zero to three initial samples, pools of two or three samples; one "
          "or two training iterations, one or two regions of each kind; "
          "weights absent, zero or symbolic; program optima, sample losses, "
          "optimiser steps symbolic in [-2,2].")
ASSUMPTIONS = [
    "real arithmetic for float64",
    "certificate programs and sample losses are replaced by stand-ins with "
    "the same interface that return arbitrary values (the programs "
    "themselves are the subject of other properties)",
    "pooled solutions are ordered from the best objective down",
    "the optimiser is replaced by a stand-in that moves every parameter it "
    "was given to an arbitrary value"]


def mod():
    return loader.module("train_lyapunov_barrier")


# --------------------------------------------------------------- programs
# ------------------------------------------------------------ the systems
def fake_system(h, kind, nx):
    m = mod()
    if kind == "hybrid":
        class S(m.hybrid_linear_system.AutonomousHybridLinearSystem):
            def __init__(self):
                pass

            def step_forward(self, x, mode=None):
                self.modes.append(mode)
                return steps[int(mode)](x)
        s = S()
        s.modes = []
        steps = [Step(h, nx, "f0"), Step(h, nx, "f1")]
        s.steps = steps
    elif kind == "feedback":
        class S(m.feedback_system.FeedbackSystem):  # noqa
            def __init__(self):
                pass

            def step_forward(self, x):
                self.count += 1
                return step(x)
        s = S()
        s.count = 0
        s.controller_network = torch.nn.Sequential(
            torch.nn.Linear(1, 1, dtype=F64))
        step = s.step = Step(h, nx)
    else:
        s = types.SimpleNamespace()
        step = s.step = Step(h, nx)
        s.step_forward = step
    s.x_dim, s.dtype = nx, F64
    s.x_lo_all, s.x_up_all = np.full(nx, -9.), np.full(nx, 9.)
    return s


class Lyap:
    """The interface the trainer uses, with arbitrary outcomes."""
    def __init__(self, h, nx, kind="plain", n=1, rel="relu", nparam=True):
        self.h, self.nx = h, nx
        self.real = loader.module(
            "lyapunov").LyapunovDiscreteTimeHybridSystem
        self.system = fake_system(h, kind, nx)
        self.lyapunov_relu = torch.nn.Sequential(
            torch.nn.Linear(1, 1, bias=False, dtype=F64))
        self.n, self.kind = n, kind
        self.calls = []
        self.milps = {"pos": [], "der": []}
        self.params = []

    def validate_x_equilibrium(self, x):
        pass

    def bind(self, name, a, k):
        b = inspect.signature(getattr(self.real, name)).bind(self, *a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        d.pop("self")
        self.calls.append((name, d))
        return d

    def _milp(self, key):
        i = len(self.milps[key])
        p = Milp(self.h, "%s%d" % (key, i), self.nx, self.n, self.params,
                 2 if self.kind == "hybrid" and key == "der" else 0)
        self.milps[key].append(p)
        return p

    def lyapunov_positivity_as_milp(self, *a, **k):
        self.bind("lyapunov_positivity_as_milp", a, k)
        p = self._milp("pos")
        return p, p.x

    def _der(self):
        p = self._milp("der")
        return types.SimpleNamespace(milp=p, x=p.x, gamma=p.gamma)

    def lyapunov_derivative_as_milp(self, *a, **k):
        self.bind("lyapunov_derivative_as_milp", a, k)
        return self._der()

    def strengthen_lyapunov_derivative_as_milp(self, *a, **k):
        self.bind("strengthen_lyapunov_derivative_as_milp", a, k)
        return self._der()

    def strengthen_lyapunov_derivative_milp_binary(self, *a, **k):
        self.bind("strengthen_lyapunov_derivative_milp_binary", a, k)

    def _loss(self, name, a, k):
        d = self.bind(name, a, k)
        i = len(self.calls)
        v = (self.h.real("loss%d" % i, -2, 2),
             [self.h.reals("lossg%d_%d_" % (i, j), p.numel(), -2, 2)
              for j, p in enumerate(self.params)])
        d["value"] = v
        d["at"] = [self.h.elems(p.data).reshape(-1).copy()
                   for p in self.params]
        return lin_loss(self.h, v, self.params)

    def lyapunov_positivity_loss_at_samples(self, *a, **k):
        return self._loss("lyapunov_positivity_loss_at_samples", a, k)

    def lyapunov_derivative_loss_at_samples_and_next_states(self, *a, **k):
        return self._loss(
            "lyapunov_derivative_loss_at_samples_and_next_states", a, k)

    def got(self, name):
        return [d for n, d in self.calls if n == name]


def trainer(h, L, rkind="fixed"):
    m = mod()
    t = m.Trainer()
    nx = L.nx
    ro = loader.module("r_options")
    if rkind == "fixed":
        t_R = ro.FixedROptions(h.tensor("R", (nx, nx), -2, 2))
    elif rkind == "spd":
        t_R = ro.SearchRwithSPDOptions((nx, nx), .5)
        t_R._variables = h.tensor("Rv", t_R._variables.shape, -2, 2,
                                   state=True)
        t_R._variables.requires_grad_(True)
    else:
        t_R = ro.SearchRwithSVDOptions((nx, nx), np.full(nx, .5))
        t_R._variables = h.tensor("Rv", t_R._variables.shape, -2, 2,
                                   state=True)
        t_R._variables.requires_grad_(True)
    xe = h.tensor("xe", nx, -1, 1)
    t.add_lyapunov(L, .25, xe, t_R)
    h.true(t.lyapunov_hybrid_system is L and t.x_equilibrium is xe and
           t.R_options is t_R and t.V_lambda == .25, "what is trained")
    t.lyapunov_positivity_epsilon = .125
    t.lyapunov_derivative_epsilon = .375
    t.lyapunov_positivity_sample_margin = .0625
    t.lyapunov_derivative_sample_margin = .03125
    t.lyapunov_derivative_eps_type = loader.module(
        "lyapunov").ConvergenceEps.ExpUpper
    return t


def common(h, t, d, eps, msg):
    same(h, d["x_equilibrium"], t.x_equilibrium, msg + ": equilibrium")
    h.true(d["V_lambda"] == t.V_lambda, msg + ": lambda")
    h.true([d[k] for k in ("V_epsilon", "epsilon") if k in d] == [eps],
           msg + ": epsilon")
    same(h, d["R"], t.R_options.R(), msg + ": transform")
    for k in ("eps_type", "epsilon_type"):
        if k in d:
            h.true(d[k] == t.lyapunov_derivative_eps_type, msg + ": rate")
    for k in ("lyapunov_lower", "lyapunov_upper", "weight"):
        h.true(d.get(k) is None, msg + ": " + k)
    if "binary_var_type" in d:
        h.true(d["binary_var_type"] == gs.GRB.BINARY, msg + ": relaxation")


def extracted(h, t, p, pool):
    """Indices of the solutions that become counterexamples."""
    n = min(pool, len(p.X))
    return [k for k in range(n)
            if not t.add_adversarial_state_only or bool(p.obj[k] > 0)]


def rows(X, nx):
    return np.array(X, dtype=object).reshape((len(X), nx))


def solve(which, nx, pool, n, only, warm, thr, kind="plain", rk="fixed",
          strong=0, binary=False):
    def f(h):
        L = Lyap(h, nx, kind, n)
        t = trainer(h, L, rk)
        t.add_adversarial_state_only = only
        key = "pos" if which == "positivity" else "der"
        nm = "lyapunov_%s_" % which
        setattr(t, nm + "mip_pool_solutions", pool)
        setattr(t, nm + "mip_warmstart", warm)
        setattr(t, nm + "mip_term_threshold", thr)
        t.derivative_mip_num_strengthen_pts = strong
        t.derivative_mip_strengthen_binary = binary
        last = h.tensor("last", nx, -2, 2) if warm else None
        setattr(t, nm + "last_x_adv", last)
        r = t.solve_positivity_mip() if key == "pos" else \
            t.solve_lyap_derivative_mip()
        h.true(len(L.milps[key]) == 1 and not L.milps[
            "der" if key == "pos" else "pos"], "one program")
        p = L.milps[key][0]
        name = "lyapunov_positivity_as_milp" if key == "pos" else (
            "strengthen_lyapunov_derivative_as_milp" if strong else
            "lyapunov_derivative_as_milp")
        d = L.got(name)[0]
        common(h, t, d, .125 if key == "pos" else .375, which)
        same(h, d["x_warmstart"], last, which + ": warm start")
        if strong:
            h.true(d["num_strengthen_pts"] == strong, "strengthening points")
        h.true(len(L.got("strengthen_lyapunov_derivative_milp_binary")) ==
               int(binary), "strengthening of the binaries")
        h.true(len(p.gurobi_model.cb) == 1, "solved once")
        check_callback(h, p.gurobi_model.cb[0], thr, which)
        if pool > 1:
            h.true(p.gurobi_model.at[0].get("poolsolutions") == pool,
                   "number of pooled solutions")
        h.true(r[0] is p, which + ": program returned")
        h.eq(r[1], p.obj[0], which + ": optimum")
        ks = extracted(h, t, p, pool)
        same(h, r[2], rows([p.X[k] for k in ks], nx),
             which + ": counterexamples")
        if key == "der":
            if kind == "hybrid":
                nxt = [L.system.steps[p.mode[k]].val(p.X[k]) for k in ks]
            else:
                nxt = [L.system.step.val(p.X[k]) for k in ks]
            same(h, r[3], rows(nxt, nx), which + ": next states")
        same(h, getattr(t, nm + "last_x_adv"),
             np.array(p.X[0], dtype=object) if warm else last,
             which + ": state for the next warm start")
        h.cover("none" if not ks else "some")
    return f


for i_, a_ in enumerate((
        ("positivity", 2, 1, 2, True, False, None),
        ("positivity", 1, 3, 2, True, True, .25),
        ("positivity", 2, 2, 3, False, False, 0., "plain", "spd"),
        ("derivative", 2, 1, 2, True, False, None),
        ("derivative", 1, 3, 2, True, True, .25, "feedback"),
        ("derivative", 2, 2, 3, False, False, None, "plain", "svd"),
        ("derivative", 2, 2, 2, True, False, None, "hybrid"),
        ("derivative", 1, 3, 3, False, True, None, "hybrid", "fixed", 3),
        ("derivative", 1, 1, 1, True, False, 0., "plain", "fixed", 2,
         True))):
    R.put(solve(*a_), "solve-%s-%d" % (a_[0], i_), "pool of %d, %d solutions"
          % (a_[2], a_[3]))


# ------------------------------------------------------------- total loss
def samples(h, name, n, nx):
    return h.tensor(name, (n, nx), -2, 2)


def sample_call(h, t, calls, want, want_next, margin, eps, msg):
    """want is None when the term is off."""
    if want is None:
        h.true(not calls, msg + ": switched off")
        return 0.
    h.true(len(calls) == 1, msg + ": evaluated once")
    d = calls[0]
    common(h, t, d, eps, msg)
    same(h, d["state_samples"], want, msg + ": samples")
    if want_next is not None:
        same(h, d["state_next"], want_next, msg + ": next states")
    h.true(d["margin"] == margin, msg + ": margin")
    h.true(d["reduction"] == t.sample_loss_reduction, msg + ": reduction")
    return d["value"][0]


def total(nx, wps, wds, wpm, wdm, wg, n, ns, pool, addp, addd, red="mean",
          rk="fixed", hist=0):
    """Weights are None, 0 or 'w' (symbolic)."""
    def f(h):
        L = Lyap(h, nx, "plain", n)
        t = trainer(h, L, rk)
        t.sample_loss_reduction = red
        t.add_positivity_adversarial_state = addp
        t.add_derivative_adversarial_state = addd
        t.max_sample_pool_size = pool
        t.lyapunov_positivity_mip_pool_solutions = n
        t.lyapunov_derivative_mip_pool_solutions = n

        def w(v, nm):
            if v != "w":
                return v
            v = h.real(nm, -2, 2)
            h.assume(OR(v > .01, v < -.01))
            return v
        W = [w(v, "w%d" % i) for i, v in enumerate((wps, wds, wpm, wdm, wg))]
        gap = [h.real("gap%d" % i, -2, 2) for i in range(3)]
        asked = []

        def boundary():
            asked.append(1)
            x = torch.zeros(nx, dtype=F64)
            return (h.as_tensor(np.array(gap[:1], dtype=object)).reshape(()),
                    gap[1], gap[2], x, x)
        t.solve_boundary_gap_mip = boundary
        sp = samples(h, "sp", ns, nx)
        sd = samples(h, "sd", ns, nx)
        sn = samples(h, "sn", ns, nx)
        before = [h.elems(v).copy() for v in (sp, sd, sn)]
        r = t.total_loss(sp, sd, sn, *W)
        ll = r.lyap_loss
        P = L.milps["pos"][0] if wpm is not None else None
        D = L.milps["der"][0] if wdm is not None else None
        h.true(len(L.milps["pos"]) == (wpm is not None) and
               len(L.milps["der"]) == (wdm is not None),
               "programs that are switched on, once")
        for got, p, msg in ((ll.positivity_mip_obj, P, "positivity"),
                            (ll.derivative_mip_obj, D, "derivative")):
            if p is None:
                h.true(got is None, msg + " optimum of no program")
            else:
                h.eq(got, p.obj[0], msg + " optimum reported")
        # samples
        ep, ed, en = before
        if addp and P is not None:
            ep = np.concatenate((ep, rows([P.X[k] for k in extracted(
                h, t, P, n)], nx)))
        if addd and D is not None:
            X = [D.X[k] for k in extracted(h, t, D, n)]
            ed = np.concatenate((ed, rows(X, nx)))
            en = np.concatenate((en, rows([L.system.step.val(x) for x in X],
                                          nx)))
        same(h, ll.positivity_state_samples, ep, "positivity samples")
        same(h, ll.derivative_state_samples, ed, "derivative samples")
        same(h, ll.derivative_state_samples_next, en, "next states")
        pw = ep[-pool:] if wps != 0 and len(ep) else None
        dw = ed[-pool:] if wds != 0 and len(ed) else None
        ps = sample_call(h, t, L.got("lyapunov_positivity_loss_at_samples"),
                         pw, None, .0625, .125, "positivity samples")
        ds = sample_call(
            h, t, L.got(
                "lyapunov_derivative_loss_at_samples_and_next_states"), dw,
            en[-pool:], .03125, .375, "derivative samples")
        ps, ds = W[0] * ps, W[1] * ds
        pm = W[2] * P.value(0)[0] if wpm else 0.
        dm = W[3] * D.value(0)[0] if wdm else 0.
        g = W[4] * gap[0] if wg else 0.
        h.true(len(asked) == int(bool(wg)), "boundary gap only if weighted")

        def sc(v):
            return h.scalar(v) if isinstance(v, torch.Tensor) else v
        h.eq(sc(ll.positivity_sample_loss), ps, "positivity sample term")
        h.eq(sc(ll.derivative_sample_loss), ds, "derivative sample term")
        h.eq(sc(ll.positivity_mip_loss), pm, "positivity program term")
        h.eq(sc(ll.derivative_mip_loss), dm, "derivative program term")
        h.eq(sc(ll.gap_mip_loss), g, "boundary gap term")
        h.eq(sc(r.loss), ps + ds + pm + dm + g, "total")
        for v, b in zip((sp, sd, sn), before):
            same(h, v, b, "given samples are left alone")
        h.cover("trimmed" if len(ep) > pool else "whole")
    return f


for i_, (a_, tier_) in enumerate((
        ((2, "w", "w", "w", "w", "w", 2, 2, 3, True, True), "quick"),
        ((1, "w", "w", "w", "w", 0, 1, 2, 9, False, True, "max"), "quick"),
        ((1, "w", "w", "w", "w", 0, 2, 1, 9, True, False, "4norm"), "quick"),
        ((1, 0, "w", None, "w", 0, 1, 2, 9, True, True), "quick"),
        ((1, "w", 0, "w", None, 0, 1, 2, 1, True, True), "quick"),
        ((1, "w", "w", None, None, 0, 1, 3, 2, True, True), "quick"),
        ((1, 0, 0, 0, 0, "w", 2, 2, 9, True, True), "quick"),
        ((1, "w", "w", "w", "w", "w", 1, 0, 9, True, True), "quick"),
        ((2, "w", "w", "w", "w", "w", 3, 3, 4, True, True, "mean", "svd"),
         "thorough"),
        ((1, "w", "w", 0, "w", "w", 2, 2, 9, True, True), "quick"),
        ((1, "w", "w", "w", 0, "w", 2, 2, 9, True, True), "quick"))):
    R.put(total(*a_), "total-%d" % i_, "weights %s" % (a_[1:6], ), tier=tier_)


# ----------------------------------------------------------- boundary gap
def gap(nx, net, trans, lam, slope):
    """Greatest and smallest value over the boundary of the region."""
    def f(h):
        from symx.lyapsys import System, transform, candidate, isin
        S = System(h, "auto", nx, True, "IA")
        phi = mknet((nx, ) + net + (1, ), 71, slope)
        lm = loader.module("lyapunov")
        L = lm.LyapunovDiscreteTimeHybridSystem(S.s, phi)
        tR, nR = transform(trans, nx)
        t = mod().Trainer()
        t.add_lyapunov(L, lam, S.txe, loader.module(
            "r_options").FixedROptions(tR))
        r = t.solve_boundary_gap_mip()
        h.true(len(r) == 5, "five results")
        vmin, vmax = r[1], r[2]
        lo, up = [np.asarray(v, dtype=float) for v in (S.s.x_lo_all,
                                                       S.s.x_up_all)]

        def V(x):
            return candidate(phi, x, S.xe, lam, nR)

        def onb(x, t=0.):
            return AND(isin(x, lo, up, t), OR([
                OR(abs(a - b) <= t, abs(a - c) <= t)
                for a, b, c in zip(x, lo, up)]))
        h.eq(h.scalar(r[0]), vmax - vmin, "gap")
        for x, v, msg in ((r[3], vmin, "least"), (r[4], vmax, "greatest")):
            x = h.elems(x)
            h.true(onb(x, 1e-6), msg + " value is on the boundary")
            h.eq(V(x), v, msg + " value is attained")
        # one face of the boundary at a time
        j, side = h.choice("face", nx), h.choice("side", 2)
        x = h.reals("x", nx, -2, 2)
        h.assume(isin(x, lo, up))
        x[j] = float((lo, up)[side][j])
        v = V(x)
        h.le(v, vmax + 1e-6, "no boundary state has a greater value")
        h.ge(v, vmin - 1e-6, "no boundary state has a smaller value")
        h.cover("gap")
    return f


for i_, a_ in enumerate(((1, (2, ), "eye", .5, .1), (2, (2, ), "sq", .25, 0.),
                         (2, (2, ), "tall", .75, .1),
                         (1, (2, 1), "diag", .25, .1))):
    R.put(gap(*a_), "gap-%d" % i_, "dimension %d" % a_[0])


# ----------------------------------------------------------------- barrier
class Bar:
    def __init__(self, h, nx, n):
        self.h, self.nx, self.n = h, nx, n
        self.real = loader.module("barrier").DiscreteTimeBarrier
        self.system = fake_system(h, "plain", nx)
        self.calls, self.milps = [], []
        self.coef = h.reals("hb", nx, -2, 2)

    bind = Lyap.bind

    def got(self, name):
        return [d for n, d in self.calls if n == name]

    def hval(self, x, xs, c):
        return np.dot(self.coef, np.asarray(x, dtype=object) - xs) + c

    def value(self, *a, **k):
        d = self.bind("value", a, k)
        x = d["x"]
        c = self.h.as_tensor(self.coef)
        return ((x - d["x_star"]) * c).sum(dim=-1) + d["c"]

    def value_as_milp(self, *a, **k):
        d = self.bind("value_as_milp", a, k)
        p = Milp(self.h, "%s%d" % ("s" if d["safe_flag"] else "u", len(
            self.milps)), self.nx, self.n)
        p.args = d
        self.milps.append(p)
        return p, p.x

    def derivative_as_milp(self, *a, **k):
        d = self.bind("derivative_as_milp", a, k)
        p = Milp(self.h, "d%d" % len(self.milps), self.nx, self.n)
        p.args = d
        self.milps.append(p)
        return types.SimpleNamespace(milp=p, x=p.x)

    def derivative_loss_at_samples_and_next_states(self, *a, **k):
        d = self.bind("derivative_loss_at_samples_and_next_states", a, k)
        d["v"] = self.h.real("dloss%d" % len(self.calls), -2, 2)
        return self.h.as_tensor(np.array([d["v"]],
                                         dtype=object)).reshape(())


def bar_trainer(h, nx, n):
    t = mod().Trainer()
    B = Bar(h, nx, n)
    xs = h.tensor("xs", nx, -1, 1)
    t.add_barrier(B, xs, .25, .375)
    h.true(t.barrier_system is B and t.barrier_x_star is xs and
           t.barrier_c == .25 and t.barrier_epsilon == .375, "what is trained")
    t.safe_regions = ["s0", "s1"]
    t.unsafe_regions = ["u0"]
    return t, B, xs


def reduce_(h, vals, how):
    v = list(vals)
    if how == "mean":
        return sum(v) / len(v)
    if how == "max":
        return vmax(*v)
    return None


def barrier_samples(nx, ns, ws, wu, wd, red):
    def f(h):
        t, B, xs = bar_trainer(h, nx, 1)
        t.sample_loss_reduction = red
        # the interface asks for floats
        W = [1.5 + i if w == "w" else w for i, w in enumerate((ws, wu, wd))]
        S = [samples(h, "b%d" % i, n, nx) for i, n in enumerate(ns)]
        V = [h.elems(s).copy() for s in S]
        r = t.barrier_sample_loss(*S, *W)
        e = h.elems(xs)
        z = [0. for _ in range(3)]
        if W[0] and ns[0]:
            z[0] = W[0] * reduce_(h, [vmax(-B.hval(x, e, .25), 0.)
                                      for x in V[0]], red)
        if W[1] and ns[1]:
            z[1] = W[1] * reduce_(h, [vmax(B.hval(x, e, .25), 0.)
                                      for x in V[1]], red)
        dc = B.got("derivative_loss_at_samples_and_next_states")
        h.true(len(dc) == int(bool(W[2] and ns[2])), "decrease term")
        if dc:
            d = dc[0]
            same(h, d["x_star"], xs, "reference state")
            h.true(d["c"] == .25 and d["epsilon"] == .375 and
                   d["margin"] == 0. and d["reduction"] == red, "constants")
            same(h, d["state_samples"], V[2], "samples")
            same(h, d["state_next"], np.array(
                [B.system.step.val(x) for x in V[2]], dtype=object),
                "next states")
            z[2] = W[2] * d["v"]
        for a, b, msg in zip(r, z, ("safe", "unsafe", "decrease")):
            h.eq(h.scalar(a), b, msg + " sample loss")
        h.cover("loss")
    return f


for i_, a_ in enumerate(((2, (2, 2, 2), "w", "w", "w", "mean"),
                         (1, (2, 3, 1), "w", "w", "w", "max"),
                         (1, (2, 0, 2), "w", "w", 0., "mean"),
                         (1, (0, 2, 0), 0., "w", "w", "max"),
                         (1, (2, 2, 2), "w", 0., "w", "mean"))):
    R.put(barrier_samples(*a_), "barrier-samples-%d" % i_, "%s samples" % (
        a_[1], ))


def barrier_programs(nx, n, pool, only, flags, regions=(2, 1)):
    """compute_barrier_loss with each weight None, 0 or a number."""
    def f(h):
        t, B, xs = bar_trainer(h, nx, n)
        t.safe_regions = ["s%d" % i for i in range(regions[0])]
        t.unsafe_regions = ["u%d" % i for i in range(regions[1])]
        t.barrier_value_mip_pool_solutions = pool
        t.barrier_derivative_mip_pool_solutions = pool
        t.add_adversarial_state_only = only
        t.max_sample_pool_size = 3
        S = [samples(h, "b%d" % i, 2, nx) for i in range(3)]
        V = [h.elems(s).copy() for s in S]
        seen = []
        out = [h.real("sl%d" % i, -2, 2) for i in range(3)]

        def sample_loss(*a):
            seen.append(a)
            return [h.as_tensor(np.array([v], dtype=object)).reshape(())
                    for v in out]
        t.barrier_sample_loss = sample_loss
        W = [h.real("w%d" % i, .01, 2) if w == "w" else w
             for i, w in enumerate(flags)]
        b = t.compute_barrier_loss(*S, 2., 3., 4., *W)
        groups = [[p for p in B.milps if p.args.get("safe_flag") is True],
                  [p for p in B.milps if p.args.get("safe_flag") is False],
                  [p for p in B.milps if "safe_flag" not in p.args]]
        for g, w, k in zip(groups, W, regions + (1, )):
            h.true(len(g) == (k if w is not None else 0),
                   "programs that are switched on")
        for p in B.milps:
            same(h, p.args["x_star"], xs, "reference state")
            h.true(p.args["c"] == .25, "constant")
            if "epsilon" in p.args:
                h.true(p.args["epsilon"] == .375, "rate")
                h.true(p.args["binary_var_type"] == gs.GRB.BINARY, "binary")
            if pool > 1:
                h.true(p.gurobi_model.at[0].get("poolsolutions") == pool,
                       "number of pooled solutions")
        h.true([p.args["region"] for p in groups[0]] ==
               ["s0", "s1", "s2"][:len(groups[0])], "safe regions")
        h.true([p.args["region"] for p in groups[1]] ==
               ["u0", "u1"][:len(groups[1])], "unsafe region")
        m = min(n, pool)
        X = []
        for i, g in enumerate(groups[:2]):
            X.append([p.X[k] for p in g for k in range(m)])
        X.append([p.X[k] for p in groups[2] for k in extracted(h, t, p, pool)])
        objs = (b.safe_mip_obj, b.unsafe_mip_obj, b.derivative_mip_obj)
        loss = (b.safe_mip_loss, b.unsafe_mip_loss, b.derivative_mip_loss)
        smp = (b.safe_state_samples, b.unsafe_state_samples,
               b.derivative_state_samples)
        for i, g in enumerate(groups):
            nm = ("safe", "unsafe", "decrease")[i]
            if W[i] is None:
                h.true(objs[i] is None and loss[i] is None, nm + ": off")
            else:
                o = objs[i] if i < 2 else [objs[i]]
                h.true(len(o) == len(g), nm + ": one optimum per program")
                for q, p in zip(o, g):
                    h.eq(q, p.obj[0], nm + ": optimum")
                if flags[i] == 0:
                    h.true(loss[i] is None, nm + ": no term")
                else:
                    ls = loss[i] if i < 2 else [loss[i]]
                    h.true(len(ls) == len(g), nm + ": one term per program")
                    for q, p in zip(ls, g):
                        h.eq(h.scalar(q), W[i] * p.value(0)[0], nm + ": term")
            want = np.concatenate((V[i], rows(X[i], nx)))
            same(h, smp[i], want, nm + ": samples")
            same(h, seen[0][i], want[-3:], nm + ": pool of samples")
        h.true(len(seen) == 1 and tuple(seen[0][3:]) == (2., 3., 4.),
               "sample weights")
        for q, o in zip((b.safe_sample_loss, b.unsafe_sample_loss,
                         b.derivative_sample_loss), out):
            h.eq(h.scalar(q), o, "sample terms")
        h.cover("none" if not X[2] else "some")
    return f


for i_, a_ in enumerate(((1, 2, 2, True, ("w", "w", "w")),
                         (2, 1, 3, False, ("w", "w", "w")),
                         (1, 1, 1, True, (None, "w", "w")),
                         (1, 1, 1, True, ("w", None, 0)),
                         (1, 2, 1, True, (0, 0, None)),
                         (1, 3, 2, False, (None, None, "w")),
                         (1, 1, 1, True, ("w", "w", None), (1, 0)),
                         (1, 1, 1, True, ("w", "w", "w"), (0, 2)))):
    R.put(barrier_programs(*a_), "barrier-%d" % i_, "weights %s" % (
        a_[4], ))


# ---------------------------------------------------------------- training
def setup(h, nx, kind, rk, n, search=True):
    L = Lyap(h, nx, kind, n)
    t = trainer(h, L, rk)
    t.search_controller = search
    for net in [L.lyapunov_relu] + ([L.system.controller_network]
                                    if kind == "feedback" else []):
        for i, p in enumerate(net.parameters()):
            p.data = h.tensor("init%d_%d" % (id(net) == id(L.lyapunov_relu),
                                             i), tuple(p.shape), -2, 2, state=True)
    want = list(L.lyapunov_relu.parameters())
    if kind == "feedback" and search:
        want += list(L.system.controller_network.parameters())
    if rk != "fixed":
        want += [t.R_options._variables]
    L.params = want
    t.lyapunov_positivity_convergence_tol = h.real("tolp", 0, 1)
    t.lyapunov_derivative_convergence_tol = h.real("told", 0, 1)
    return L, t, want


def trained(h, opt, want, msg):
    h.true(len(opt.params) == len(want) and
           {id(p) for p in opt.params} == {id(p) for p in want},
           msg + ": trained parameters")


def train(nx, kind, rk, search, ns, iters, name, adv, n=1, save=0):
    def f(h):
        L, t, want = setup(h, nx, kind, rk, n, search)
        if save:
            t.save_network_path, t.save_network_iterations = "/none", save
        init = {id(p): h.elems(p).reshape(-1).copy() for p in want}
        stored = []
        keep = torch.save

        def store(obj, path, *a, **k):
            ps = list(obj.parameters()) if isinstance(
                obj, torch.nn.Module) else [obj]
            stored.append((obj, str(path), [
                (id(p), h.elems(p.detach()).reshape(-1).copy()) for p in ps]))
        t.max_iterations, t.optimizer = iters, name
        t.learning_rate, t.momentum = .125, .5
        t.lyapunov_positivity_mip_pool_solutions = n
        t.lyapunov_derivative_mip_pool_solutions = n
        t.add_positivity_adversarial_state = adv
        t.add_derivative_adversarial_state = adv
        x0 = samples(h, "x0", ns, nx)
        X0 = h.elems(x0).copy()
        torch.save = store
        try:
            with Patched(h) as made:
                r = t.train(x0)
        finally:
            torch.save = keep
        same(h, x0, X0, "given samples are left alone")
        h.true(len(made) == 1 and type(made[0]).__name__ == name,
               "optimiser")
        o = made[0]
        h.eq(o.lr, .125, "learning rate")
        if name == "SGD":
            h.eq(o.momentum, .5, "momentum")
        trained(h, o, want, "training")
        P, D = L.milps["pos"], L.milps["der"]
        k = len(P)
        h.true(len(D) == k and 1 <= k <= iters, "programs solved")
        tp, td = (t.lyapunov_positivity_convergence_tol,
                  t.lyapunov_derivative_convergence_tol)
        conv = [AND(p.obj[0] <= tp, d.obj[0] <= td) for p, d in zip(P, D)]
        sure = [AND(p.obj[0] < tp, d.obj[0] < td) for p, d in zip(P, D)]
        h.true(NOT(OR(sure[:-1])) if k > 1 else True,
               "training goes on although it has converged")
        h.true(len(r) == 4, "four results")
        if r[0]:
            h.true(conv[-1], "convergence declared outside the tolerances")
            h.true(len(o.log) == k - 1, "no step after convergence")
            h.cover("converged")
        else:
            h.true(NOT(sure[-1]), "convergence is missed")
            h.true(k == iters, "training stops early")
            h.true(len(o.log) == k, "one step per iteration")
            h.cover("stopped")
        # losses of the iterations
        sp = L.got("lyapunov_positivity_loss_at_samples")
        sd = L.got("lyapunov_derivative_loss_at_samples_and_next_states")
        ep = ed = X0
        en = np.array([L.system.step.val(x) for x in X0],
                      dtype=object).reshape((ns, nx))
        for i in range(k):
            if adv:
                ep = np.concatenate((ep, rows([P[i].X[q] for q in extracted(
                    h, t, P[i], n)], nx)))
                Xd = [D[i].X[q] for q in extracted(h, t, D[i], n)]
                ed = np.concatenate((ed, rows(Xd, nx)))
                en = np.concatenate((en, rows(
                    [L.system.step.val(x) for x in Xd], nx)))
            terms = [(10., P[i].value(0)), (10., D[i].value(0))]
            if len(ep):
                c = sp.pop(0)
                same(h, c["state_samples"], ep, "samples of iteration %d" % i)
                terms.append((1., c["value"]))
            if len(ed):
                c = sd.pop(0)
                same(h, c["state_samples"], ed, "samples of iteration %d" % i)
                same(h, c["state_next"], en, "next states, iteration %d" % i)
                terms.append((1., c["value"]))
            if i < len(o.log):
                for p, g in zip(o.params, o.log[i]):
                    j = [id(q) for q in want].index(id(p))
                    h.eq(g, sum(w * v[1][j] for w, v in terms),
                         "gradient of iteration %d" % i)
            if i == k - 1:
                e = 0.
                for w, v in terms:
                    e = e + w * v[0]
                h.eq(r[1], e, "loss of the last iteration")
                h.eq(r[2], P[i].obj[0], "positivity optimum")
                h.eq(r[3], D[i].obj[0], "derivative optimum")
        h.true(not sp and not sd, "sample losses")
        # what is stored, and when
        at = [i for i in range(k) if save and i % save == 0]
        names = ["lyapunov", "R"] + (["controller"] if kind == "feedback"
                                     else [])
        h.true([(q[1]) for q in stored] == [
            "/none/%s.pt" % q for i in at for q in names], "files")
        for j, (obj, path, ps) in enumerate(stored):
            i = at[j // len(names)]
            if path.endswith("R.pt"):
                if rk == "fixed" or i == 0:
                    h.true(tuple(obj.shape) == (nx, nx), "stored transform")
                continue
            h.true(obj is (L.lyapunov_relu if "lyap" in path else
                           L.system.controller_network), "stored network")
            for q, v in ps:
                if q in init:
                    h.eq(v, o.hist[q][i] if i else init[q],
                         "stored parameters are those in use")
        if stored:
            h.cover("stored")
    return f


for i_, a_ in enumerate(((1, "plain", "fixed", True, 1, 2, "Adam", True),
                         (1, "plain", "spd", True, 0, 2, "SGD", False),
                         (2, "feedback", "svd", True, 1, 2, "Adam", True),
                         (1, "feedback", "fixed", False, 2, 2, "SGD", False),
                         (1, "plain", "svd", True, 0, 1, "Adam", True, 2),
                         (1, "plain", "fixed", True, 1, 3, "Adam", False, 1,
                          2),
                         (1, "feedback", "fixed", True, 0, 2, "Adam", True, 1,
                          1))):
    R.put(train(*a_), "train-%d" % i_, "%d iterations" % a_[5])


# ------------------------------------------------- descent on the samples
def nets(L, t):
    """Every tensor that describes what is trained."""
    v = list(L.lyapunov_relu.parameters())
    if hasattr(L.system, "controller_network"):
        v += list(L.system.controller_network.parameters())
    return v + list(t.R_options.variables())


def snap(h, L, t):
    return [h.elems(p.data).reshape(-1).copy() for p in nets(L, t)]


class Snaps:
    """Values of all trained tensors at every evaluation of the losses."""
    def __init__(self, h, L, t, positive=False):
        self.h, self.L, self.t, self.log = h, L, t, []
        keep = L._loss

        def loss(name, a, k):
            r = keep(name, a, k)
            L.calls[-1][1]["snap"] = snap(h, L, t)
            if positive:
                h.assume(L.calls[-1][1]["value"][0] > 0)
            return r
        L._loss = loss


POS = "lyapunov_positivity_loss_at_samples"
DER = "lyapunov_derivative_loss_at_samples_and_next_states"


def best_of(h, L, t, full, final, early, msg):
    """final is the state of the first best evaluation."""
    val = [p["value"][0] + d["value"][0] for p, d in full]
    bests = []
    for i, v in enumerate(val):
        bests.append(AND([v < w for w in val[:i]] + [v <= w for w in
                                                     val[i + 1:]]))
    i = next(i for i, b in enumerate(bests) if b is True or bool(b))
    if early:
        i = len(val) - 1
    for a, b in zip(final, full[i][0]["snap"]):
        h.eq(a, b, msg + ": parameters of the best evaluation")
    return i


def descent(kind, rk, search, npos, nder, nb, epochs):
    def f(h):
        L, t, want = setup(h, 1, kind, rk, 1, search)
        Snaps(h, L, t)
        o = mod().Trainer.AdversarialTrainingOptions()
        o.num_batches, o.num_epochs_per_mip = nb, epochs
        xp, xd = samples(h, "xp", npos, 1), samples(h, "xd", nder, 1)
        Xp, Xd = h.elems(xp).copy(), h.elems(xd).copy()
        one = torch.ones(npos, dtype=F64), torch.ones(nder, dtype=F64)
        with Patched(h):
            opt = torch.optim.Adam(t._training_params(), lr=.125)
            trained(h, opt, want, "descent")
            t._batch_descent_on_samples(xp, xd, opt, *one, o)
        sp, sd = L.got(POS), L.got(DER)
        h.true(len(sp) == len(sd), "losses come in pairs")
        full = [(p, d) for p, d in zip(sp, sd)
                if p["state_samples"].shape[0] == npos]
        part = [(p, d) for p, d in zip(sp, sd)
                if p["state_samples"].shape[0] != npos]
        for p, d in full:
            same(h, p["state_samples"], Xp, "all positivity samples")
            same(h, d["state_samples"], Xd, "all derivative samples")
        for p, d in full + part:
            x = h.elems(d["state_samples"])
            same(h, d["state_next"], np.array(
                [L.system.step.val(q) for q in x], dtype=object),
                "next states")
        zero = [AND(p["value"][0] == 0, d["value"][0] == 0)
                for p, d in full[1:]]
        early = bool(zero[-1])
        h.true(NOT(OR(zero[:-1])), "goes on although the loss is zero")
        if not early:
            h.true(len(full) == epochs + 1, "number of epochs")
        h.true(len(opt.log) == len(part) and
               len(part) == nb * (len(full) - 1), "one step per batch")
        for g, (p, d) in zip(opt.log, part):
            for q, gq in zip(opt.params, g):
                j = [id(w) for w in want].index(id(q))
                h.eq(gq, p["value"][1][j] + d["value"][1][j],
                     "gradient of the batch")
        if npos == nder:   # every sample once per epoch
            for e in range(len(full) - 1):
                for key, X in ((0, Xp), (1, Xd)):
                    b = np.concatenate([h.elems(q[key]["state_samples"])
                                        for q in part[e * nb:(e + 1) * nb]])
                    h.true(b.shape == X.shape, "batches of an epoch")
                    h.eq(b.sum(), X.sum(), "each sample once per epoch")
        i = best_of(h, L, t, full, snap(h, L, t), early, "descent")
        now = {id(p) for p in t._training_params()}
        h.true(now == {id(p) for p in opt.params},
               "the tensors in use are those that are trained")
        h.true(all(p.requires_grad and p.is_leaf for p in nets(L, t)),
               "they stay trainable")
        h.cover("zero" if early else ("first" if i == 0 else "later"))
    return f


for i_, a_ in enumerate((("plain", "fixed", True, 2, 2, 2, 2),
                         ("plain", "spd", True, 2, 2, 2, 1),
                         ("feedback", "svd", True, 2, 2, 2, 2),
                         ("feedback", "spd", False, 3, 2, 2, 1))):
    R.put(descent(*a_), "descent-%d" % i_, "%d epochs" % a_[6])


def adversarial(kind, rk, search, iters, name, pools, radius, perturb, n=1,
                only=True, epochs=1):
    def f(h):
        L, t, want = setup(h, 1, kind, rk, n, search)
        # (a descent that reaches loss zero is the subject of descent-*)
        Snaps(h, L, t, positive=iters > 1)
        o = mod().Trainer.AdversarialTrainingOptions()
        o.num_batches, o.num_epochs_per_mip = 1, epochs
        o.positivity_samples_pool_size, o.derivative_samples_pool_size = pools
        o.adversarial_cluster_radius = radius
        o.perturb_derivative_sample_count = perturb
        o.perturb_derivative_sample_std = .5
        t.max_iterations, t.optimizer = iters, name
        t.learning_rate, t.momentum = .125, .5
        t.lyapunov_positivity_mip_pool_solutions = n
        t.lyapunov_derivative_mip_pool_solutions = n
        t.add_positivity_adversarial_state = True
        t.add_derivative_adversarial_state = True
        t.add_adversarial_state_only = only
        xp, xd = samples(h, "xp", 1, 1), samples(h, "xd", 1, 1)
        ep, ed = h.elems(xp).copy(), h.elems(xd).copy()
        noise = []
        keep = torch.randn

        def randn(*s, **k):
            s = s[0] if len(s) == 1 and not isinstance(s[0], int) else s
            noise.append(h.tensor("noise%d" % len(noise), tuple(s), -2, 2))
            return noise[-1]
        torch.randn = randn
        try:
            with Patched(h) as made:
                r = t.train_adversarial(xp, xd, o)
        finally:
            torch.randn = keep
        P, D = L.milps["pos"], L.milps["der"]
        k = len(P)
        h.true(len(D) == k and 1 <= k <= iters, "programs solved")
        tp, td = (t.lyapunov_positivity_convergence_tol,
                  t.lyapunov_derivative_convergence_tol)
        conv = [AND(p.obj[0] <= tp, d.obj[0] <= td) for p, d in zip(P, D)]
        sure = [AND(p.obj[0] < tp, d.obj[0] < td) for p, d in zip(P, D)]
        if k > 1:
            h.true(NOT(OR(sure[:-1])), "goes on although it has converged")
        h.true(len(r) == 5, "verdict, samples and repetitions")
        if r[0]:
            h.true(conv[-1], "convergence declared outside the tolerances")
            h.true(len(made) == k - 1, "no descent after convergence")
            h.cover("converged")
        else:
            h.true(NOT(sure[-1]), "convergence is missed")
            h.true(k == iters and len(made) == k, "iterations")
            h.cover("stopped")
        for q in made:
            h.true(type(q).__name__ == name, "optimiser")
            trained(h, q, want, "adversarial training")
        h.true({id(q) for q in t._training_params()} == {
            id(q) for q in want}, "the tensors in use are those trained")
        nz = 0
        for i in range(k):
            cp = [P[i].X[q] for q in extracted(h, t, P[i], n)]
            cd = [D[i].X[q] for q in extracted(h, t, D[i], n)]
            if not np.isinf(radius):
                cp, cd = clusters(h, cp, radius)[0], clusters(h, cd,
                                                              radius)[0]
            cp, cd = rows(cp, 1), rows(cd, 1)
            if perturb:
                z = h.elems(noise[nz])
                nz += 1
                cd = np.concatenate((cd, (cd[None] + z * .5).reshape(-1, 1)))
            ep = np.concatenate((ep, cp))[-pools[0]:]
            ed = np.concatenate((ed, cd))[-pools[1]:]
        same(h, r[1], ep, "positivity samples")
        same(h, r[2], ed, "derivative samples")
        h.true(tuple(r[3].shape) == (len(ep), ) and
               tuple(r[4].shape) == (len(ed), ), "repetitions")
        h.cover("grown" if len(ep) > 1 else "kept")
    return f


def clusters(h, X, radius):
    """First of every run of states each within the radius of the one
    before, and the lengths of the runs."""
    reps, cnt = [], []
    for i, x in enumerate(X):
        x = np.asarray(x, dtype=object)
        if i and not bool(((x - X[i - 1])**2).sum() > radius * radius):
            cnt[-1] += 1
        else:
            reps.append(x)
            cnt.append(1)
    return reps, cnt


def cluster(nx, n, radius):
    def f(h):
        x = samples(h, "x", n, nx)
        X = h.elems(x).copy()
        c, rep = mod()._cluster_adversarial_states(x, radius)
        reps, cnt = clusters(h, list(X), radius)
        same(h, c, rows(reps, nx), "one state per cluster")
        same(h, rep, np.array(cnt, dtype=object), "size of every cluster")
        same(h, x, X, "the states are left alone")
        h.cover("%d clusters" % len(reps))
    return f


for nx_, n_ in ((1, 0), (1, 1), (2, 2), (1, 3), (2, 3), (1, 4)):
    R.put(cluster(nx_, n_, .5), "cluster-%d-%d" % (nx_, n_),
          "%d states" % n_)
for i_, a_ in enumerate((
        ("plain", "fixed", True, 2, "Adam", (9, 9), np.inf, 0),
        ("plain", "spd", True, 2, "SGD", (2, 2), np.inf, 0),
        ("feedback", "svd", True, 1, "Adam", (9, 9), np.inf, 2),
        ("feedback", "spd", True, 2, "Adam", (2, 9), np.inf, 0, 1, False),
        ("plain", "fixed", True, 1, "Adam", (9, 9), .5, 0, 3, False))):
    R.put(adversarial(*a_), "adversarial-%d" % i_, "%d iterations" % a_[3])


# ------------------------------------------------------ training on samples
def on_samples(kind, rk, search, epochs):
    def f(h):
        L, t, want = setup(h, 1, kind, rk, 1, search)
        Snaps(h, L, t)
        x = samples(h, "x", 5, 1)
        X = h.elems(x).copy()
        with Patched(h) as made:
            t.train_lyapunov_on_samples(x, epochs, 2)
        h.true(len(made) == 1, "one optimiser")
        trained(h, made[0], want, "training on samples")
        h.true(not L.milps["pos"] and not L.milps["der"], "no program")
        sp, sd = L.got(POS), L.got(DER)
        h.true(len(sp) == len(sd) == 3 * epochs, "batches and tests")
        for p, d in zip(sp, sd):
            same(h, d["state_samples"], p["state_samples"], "same samples")
            same(h, d["state_next"], np.array(
                [L.system.step.val(q) for q in h.elems(d["state_samples"])],
                dtype=object), "next states")
        for e in range(epochs):
            three = [h.elems(q["state_samples"]) for q in sp[3 * e:3 * e + 3]]
            h.true([len(q) for q in three] == [2, 2, 1],
                   "training batches, then the test samples")
            h.eq(np.concatenate(three).sum(), X.sum(),
                 "each sample in one of them")
        part = [q for i, q in enumerate(zip(sp, sd)) if i % 3 != 2]
        h.true(len(made[0].log) == len(part), "one step per batch")
        for g, (p, d) in zip(made[0].log, part):
            for q, gq in zip(made[0].params, g):
                j = [id(w) for w in want].index(id(q))
                h.eq(gq, p["value"][1][j] + d["value"][1][j],
                     "gradient of the batch")
        full = [q for i, q in enumerate(zip(sp, sd)) if i % 3 == 2]
        i = best_of(h, L, t, full, snap(h, L, t), False, "test loss")
        h.true({id(q) for q in t._training_params()} == {
            id(q) for q in want}, "the tensors in use are those trained")
        h.cover("last" if i == epochs - 1 else "earlier")
    return f


for i_, a_ in enumerate((("plain", "fixed", True, 2),
                         ("plain", "spd", True, 2),
                         ("feedback", "svd", True, 2),
                         ("feedback", "fixed", False, 3))):
    R.put(on_samples(*a_), "on-samples-%d" % i_, "%d epochs" % a_[3])


# ------------------------------------------------------ value approximator
def value(nx, n, epochs, useR):
    def f(h):
        t = mod().TrainValueApproximator()
        t.max_epochs, t.learning_rate = epochs, .125
        t.convergence_tolerance = h.real("tol", 0, 1)
        net = torch.nn.Sequential(torch.nn.Linear(nx, 1, dtype=F64))
        for i, p in enumerate(net.parameters()):
            p.data = h.tensor("w%d" % i, tuple(p.shape), -2, 2,
                              state=True)
        X = [h.tensor("x%d" % i, nx, -2, 2) for i in range(n)]
        v = [h.tensor("v%d" % i, (), -2, 2) for i in range(n)]
        xe = h.tensor("xe", nx, -1, 1)
        tR = h.tensor("R", (nx, nx), -1, 1) if useR else None
        with Patched(h) as made:
            r = t.train_with_cost_to_go(net, list(zip(X, v)), .25, xe, tR)
        o = made[0]
        h.true(len(made) == 1 and [id(p) for p in o.params] == [
            id(p) for p in net.parameters()], "network is trained")
        e = h.elems(xe)
        Rm = h.elems(tR) if useR else np.eye(nx)
        k = len(o.log) + (1 if r[0] else 0)
        h.true(k <= epochs, "epochs")
        for i in range(k):
            w = o.hist[id(o.params[0])][i]
            res = []
            for x, q in zip(X, v):
                d = h.elems(x) - e
                res.append(np.dot(w, d) + .25 * l1(Rm.dot(d)) - h.scalar(q))
            loss = sum(q * q for q in res) / n
            if i < len(o.log):
                for j in range(nx):
                    h.eq(o.log[i][0][j], sum(
                        2 * q * (h.elems(x)[j] - e[j])
                        for q, x in zip(res, X)) / n, "gradient")
            if i == k - 1:
                h.eq(r[1], loss, "loss")
                if r[0]:
                    h.le(loss, t.convergence_tolerance, "verdict")
                    h.cover("converged")
                else:
                    h.true(loss > t.convergence_tolerance, "verdict")
                    h.true(k == epochs, "epochs")
                    h.cover("stopped")
            else:
                h.true(loss > t.convergence_tolerance, "goes on although "
                       "the tolerance is met")
    return f


R.put(value(1, 2, 1, True), "value-1", "two samples, one epoch")
R.put(value(1, 1, 2, False), "value-2", "one sample, two epochs")
R.put(value(2, 2, 1, False), "value-3", "two samples, one epoch",
      tier="thorough")


def value_train(discrete, goal):
    """train: cost-to-go samples of the given states, then the fit."""
    def f(h):
        t = mod().TrainValueApproximator()
        hy = loader.module("hybrid_linear_system")
        s = hy.AutonomousHybridLinearSystem.__new__(
            hy.AutonomousHybridLinearSystem)
        s.x_dim, s.dtype = 2, F64
        X = h.tensor("X", (3, 2), -2, 2)
        xe = h.tensor("xe", 2, -1, 1)
        xg = h.tensor("xg", 2, -1, 1) if goal else None
        tR = h.tensor("R", (2, 2), -1, 1)
        net, cost, prune, seen = object(), object(), object(), {}
        samples, ret = object(), (True, .5)

        def gen(*a, **k):
            b = sig_gen.bind(*a, **k)
            b.apply_defaults()
            seen["gen"] = b.arguments
            return samples

        def fit(*a, **k):
            b = sig_fit.bind(t, *a, **k)
            b.apply_defaults()
            seen["fit"] = b.arguments
            return ret
        sig_gen = inspect.signature(hy.generate_cost_to_go_samples)
        sig_fit = inspect.signature(type(t).train_with_cost_to_go)
        save = hy.generate_cost_to_go_samples
        hy.generate_cost_to_go_samples = gen
        t.train_with_cost_to_go = fit
        T = 5 if discrete else 2.5
        kw = dict(x_goal=xg, pruner=prune) if goal else {}
        try:
            r = t.train(s, net, .25, xe, cost, X, T, discrete, tR, **kw)
        finally:
            hy.generate_cost_to_go_samples = save
        h.true(r is ret, "the result of the fit is returned")
        g, q = list(seen["gen"].values()), list(seen["fit"].values())
        h.true(g[0] is s and g[3] is cost and g[2] == T and
               g[4] is discrete, "cost-to-go of the system")
        h.true(len(g[1]) == 3, "every sample")
        for i in range(3):
            same(h, g[1][i], h.elems(X)[i], "sample %d" % i)
        h.true(g[5] is xg and g[6] is (prune if goal else None),
               "goal and pruner")
        h.true(q[1] is net and q[2] is samples and q[3] == .25 and
               q[4] is xe and q[5] is tR, "arguments of the fit")
        h.cover("trained")
    return f


R.put(value_train(True, True), "value-train-1", "three samples")
R.put(value_train(False, False), "value-train-2", "three samples")
