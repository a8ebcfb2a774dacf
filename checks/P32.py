"""P32 Dynamics-learning losses and rollouts follow their definition."""
import inspect
import os
import shutil
import tempfile
import types

import numpy as np
import torch

from symx import gurobi_stub as gs, loader
from symx.driver import Registry
from symx.lib import (AND, IMPLIES, vmax, mknet, netfun, tt, rnd, l1,
                      exp, log, near, Rand, F64)
from symx.trainsys import (Milp, lin_loss, Step, same, check_callback, Patched)

HARNESSES = R = Registry()
BOUNDS = ("State or latent dimension 1-2; one to three samples per batch; "
          "rollouts of zero to three steps; images of one to three channels "
          "and one or two pixels; pools of up to three solutions; one or two "
          "epochs of one or two batches; states, images, losses and program "
          "optima symbolic, weights of the networks fixed rationals.")
ASSUMPTIONS = [
    "real arithmetic for float64; exp, log and the logistic function are "
    "uninterpreted apart from: exp(v) >= 1+v with equality only at zero, "
    "logistic values lie between zero and one and increase",
    "in the harnesses of the program losses and of the training loop the "
    "certificate programs and losses are stand-ins with the same interface "
    "that return arbitrary values",
    "encoders and decoders are small linear networks, followed by the "
    "logistic function where cross entropy is used",
    "pickling is a stand-in that gives back the objects written, in order; "
    "CUDA devices are not covered"]

POS = "lyapunov_positivity_loss_at_samples"
DER = "lyapunov_derivative_loss_at_samples_and_next_states"


def mod():
    return loader.module("dynamics_learning")


def lmod():
    return loader.module("lyapunov")


class Writer:
    def __init__(self, *a, **k):
        self.got = []

    def add_scalar(self, name, value, step):
        self.got.append((name, value, step))

    def add_scalars(self, name, values, step):
        self.got.append((name, values, step))


def options(h, nx, **kw):
    d = dict(dtype=F64, x_dim=nx, z_dim=nx, V_lambda=.25, V_eps_pos=.125,
             V_eps_der_lo=.375, V_eps_der_up=.75, R=None,
             lyap_loss_optimal=True, lyap_loss_warmstart=False,
             lyap_loss_freq=0, use_bce=False, use_variational=False,
             kl_weight_lo=.5, kl_weight_up=1.5, kl_weight_center_step=2,
             kl_weight_steps_lo_to_up=3, image_width=1, image_height=2,
             decoded_equilibrium_loss_weight=.5,
             lyap_pos_loss_at_samples_weight=1.5,
             lyap_der_lo_loss_at_samples_weight=.75,
             lyap_der_up_loss_at_samples_weight=2.25,
             lyap_pos_loss_weight=.625, lyap_der_lo_loss_weight=1.25,
             lyap_der_up_loss_weight=2.5,
             x_lo_stable=h.tensor("xls", nx, -2, 0),
             x_up_stable=h.tensor("xus", nx, 0, 2))
    d["z_lo_stable"], d["z_up_stable"] = d["x_lo_stable"], d["x_up_stable"]
    d.update(kw)
    return mod().DynamicsLearningOptions(d)


# -------------------------------------------------------------- real system
def real_lyap(h, nx, residual, seed=11):
    """The library's system and Lyapunov function, and their values."""
    rs = loader.module("relu_system")
    f = mknet((nx, 2, nx), seed, 0.)
    v = mknet((nx, 2, 1), seed + 1, 0.)
    xe = h.tensor("xe", nx, -1, 1)
    cls = rs.AutonomousResidualReLUSystemGivenEquilibrium if residual else \
        rs.AutonomousReLUSystemGivenEquilibrium
    S = cls(F64, tt(np.full(nx, -9.)), tt(np.full(nx, 9.)), f, xe)
    L = lmod().LyapunovDiscreteTimeHybridSystem(S, v)
    e = h.elems(xe)

    def step(x):
        return netfun(f, x) - netfun(f, e) + (x if residual else e)

    def value(x, Rm=None):
        d = x - e
        return netfun(v, x)[0] - netfun(v, e)[0] + .25 * l1(
            d if Rm is None else Rm.dot(d))
    return L, step, value


def learner(h, nx, residual=False, seed=11, **kw):
    L, step, value = real_lyap(h, nx, residual, seed)
    o = options(h, nx, **kw)
    return mod().StateSpaceDynamicsLearning([], [], L, o), step, value, o


def transform(h, nx, rk):
    if rk is None:
        return None, None
    t = h.tensor("R", (nx, nx), -1, 1)
    return t, h.elems(t)


# ------------------------------------------------------------ state space
def rollout(nx, N, residual, rk):
    def f(h):
        tR, Rm = transform(h, nx, rk)
        D, step, value, o = learner(h, nx, residual, R=tR)
        x = h.tensor("x", nx, -2, 2)
        X = [h.elems(x).copy()]
        for _ in range(N):
            X.append(step(X[-1]))
        xt, vt = D.rollout(x, N)
        same(h, xt, np.array(X, dtype=object), "states")
        same(h, vt, np.array([value(q, Rm) for q in X], dtype=object),
             "Lyapunov values")
        same(h, x, X[0], "the initial state is left alone")
    return f


for nx_, N_, res_, rk_, tier_ in (
        (1, 0, False, None, "quick"), (2, 1, False, None, "quick"),
        (1, 2, True, "free", "quick"), (2, 2, False, None, "quick"),
        (2, 1, True, "free", "thorough"), (1, 3, False, None, "quick"),
        (2, 2, True, None, "thorough")):
    R.put(rollout(nx_, N_, res_, rk_), "rollout-%d-%d-%d-%s" % (
        nx_, N_, res_, rk_), "%d steps" % N_, tier=tier_)


def rollout_loss(nx, N, residual, n):
    def f(h):
        D, step, value, o = learner(h, nx, residual)
        E = [h.tensor("e%d" % i, (N + 1, nx), -2, 2) for i in range(n)]
        want = []
        for t in E:
            t = h.elems(t)
            x, w = t[0].copy(), []
            for k in range(N + 1):
                w.append(((t[k] - x)**2).sum() / nx)
                x = step(x)
            want.append(np.array(w, dtype=object))
        for t, w in zip(E, want):
            same(h, D.rollout_loss(t), w, "error along the rollout")
        r = D.rollout_validation(list(E))
        same(h, r, sum(want) / n, "mean over the rollouts")
    return f


for a_ in ((1, 1, False, 1), (1, 1, True, 2), (2, 1, False, 2),
           (1, 2, False, 1)):
    R.put(rollout_loss(*a_), "rollout-loss-%d-%d-%d-%d" % a_,
          "%d rollouts of %d steps" % (a_[3], a_[1]))


def dynamics_loss(nx, n, residual):
    def f(h):
        D, step, value, o = learner(h, nx, residual)
        x, y = h.tensor("x", (n, nx), -2, 2), h.tensor("y", (n, nx), -2, 2)
        w = sum(((step(p) - q)**2).sum()
                for p, q in zip(h.elems(x), h.elems(y))) / (n * nx)
        r = D.dynamics_loss(x, y)
        h.eq(h.scalar(r), w, "mean squared one-step error")
    return f


for a_ in ((1, 1, False), (1, 2, True), (2, 2, False), (2, 1, True)):
    R.put(dynamics_loss(*a_), "dynamics-loss-%d-%d-%d" % a_,
          "%d samples" % a_[1])


def hinge_terms(h, X, lo, up, step, value, Rm, e):
    """The three sample losses, for samples in the box."""
    ins = [x for x in X if bool(AND([a <= b for a, b in zip(lo, x)] +
                                    [b <= a for a, b in zip(up, x)]))]
    if not ins:
        return [0., 0., 0.], ins
    pos, dlo, dup = [], [], []
    for x in ins:
        v, w = value(x, Rm), value(step(x), Rm)
        d = x - e
        pos.append(vmax(.125 * l1(d if Rm is None else Rm.dot(d)) - v, 0.))
        dlo.append(vmax(w - v + .375 * v, 0.))
        dup.append(vmax(-(w - v + .75 * v), 0.))
    return [c * sum(q) / len(ins) for c, q in zip((1.5, .75, 2.25), (
        pos, dlo, dup))], ins


def at_samples(nx, n, residual, rk):
    def f(h):
        tR, Rm = transform(h, nx, rk)
        D, step, value, o = learner(h, nx, residual, R=tR)
        x = h.tensor("x", (n, nx), -3, 3)
        X = h.elems(x).copy()
        # one at a time: every case of being inside
        want, ins = hinge_terms(h, X, h.elems(o.x_lo_stable),
                                h.elems(o.x_up_stable), step, value, Rm,
                                h.elems(D.lyap.system.x_equilibrium))
        got = D.lyapunov_loss_at_samples(x)
        h.true(len(got) == 3, "three losses")
        for g, w, m in zip(got, want, ("positivity", "decrease at least",
                                       "decrease at most")):
            h.eq(h.elems(g).reshape(-1)[0], w, m)
            h.true(g.numel() == 1, m + ": one number")
        h.cover("none" if not ins else "some")
    return f


for a_, t_ in (((1, 1, False, None), "quick"), ((1, 2, True, None), "quick"),
               ((1, 2, False, None), "quick"), ((2, 1, True, None), "quick"),
               ((1, 1, True, "free"), "quick"),
               ((2, 1, False, None), "quick"),
               ((1, 3, False, None), "thorough")):
    R.put(at_samples(*a_), "at-samples-%d-%d-%d-%s" % a_, "%d samples" % a_[1],
          tier=t_)


# ---------------------------------------------------------------- programs
def fake_lyap(h, nx, n, incorrect=()):
    """Arbitrary outcomes behind the interface of the Lyapunov function."""
    real = lmod().LyapunovDiscreteTimeHybridSystem
    rs = loader.module("relu_system")

    class S(rs.AutonomousReLUSystemGivenEquilibrium):
        def __init__(self):
            self.x_dim, self.dtype = nx, F64
            self.x_equilibrium = h.tensor("xe", nx, -1, 1)
            self.dynamics_relu = torch.nn.Sequential(
                torch.nn.Linear(1, 1, bias=False, dtype=F64))

        def step_forward(self, x):
            return step(x)
    step = Step(h, nx)

    class L(real):
        def __init__(self):
            self.system = S()
            self.lyapunov_relu = torch.nn.Sequential(
                torch.nn.Linear(1, 1, bias=False, dtype=F64))
            self.calls, self.params = [], []

        def bind(self, name, a, k):
            b = inspect.signature(getattr(real, name)).bind(self, *a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            d.pop("self")
            i = len(self.calls)
            p = Milp(h, "m%d" % i, nx, n, self.params)
            if i % 3 in incorrect:
                def bad(*a, **k):
                    raise loader.module("gurobi_torch_mip"). \
                        IncorrectActiveConstraint("no")
                p.compute_objective_from_mip_data_and_solution = bad
            d["milp"] = p
            self.calls.append((name, d))
            return p

        def lyapunov_positivity_as_milp(self, *a, **k):
            p = self.bind("lyapunov_positivity_as_milp", a, k)
            return p, p.x

        def lyapunov_derivative_as_milp(self, *a, **k):
            p = self.bind("lyapunov_derivative_as_milp", a, k)
            return types.SimpleNamespace(milp=p, x=p.x)
    r = L()
    for i, p in enumerate(list(r.lyapunov_relu.parameters()) +
                          list(r.system.dynamics_relu.parameters())):
        p.data = h.tensor("init%d" % i, tuple(p.shape), -2, 2)
        r.params.append(p)
    return r


def programs(h, L, o, msg):
    """The three programs, in any order, with their arguments checked."""
    eps = {("lyapunov_positivity_as_milp", None): o.V_eps_pos,
           ("lyapunov_derivative_as_milp", "ExpLower"): o.V_eps_der_lo,
           ("lyapunov_derivative_as_milp", "ExpUpper"): o.V_eps_der_up}
    out = {}
    for name, d in L.calls:
        e = d.get("eps_type")
        key = name, None if e is None else e.name
        h.true(key in eps and key not in out, msg + ": each program once")
        out[key] = d
        same(h, d["x_equilibrium"], L.system.x_equilibrium,
             msg + ": equilibrium")
        h.true(d["V_lambda"] == o.V_lambda, msg + ": lambda")
        h.true(d.get("epsilon", d.get("V_epsilon")) == eps[key],
               msg + ": rate")
        same(h, d["R"], o.R, msg + ": transform")
        for k in ("lyapunov_lower", "lyapunov_upper"):
            h.true(d.get(k) is None, msg + ": " + k)
        if "binary_var_type" in d:
            h.true(d["binary_var_type"] == gs.GRB.BINARY, msg + ": relaxed")
    h.true(len(out) == 3, msg + ": three programs")
    return [out[k] for k in eps]


def program_losses(nx, n, rk, optimal, warm, incorrect=(), thr=True):
    def f(h):
        tR, Rm = transform(h, nx, rk)
        o = options(h, nx, R=tR, lyap_loss_optimal=optimal,
                    lyap_loss_warmstart=warm)
        L = fake_lyap(h, nx, n, incorrect)
        D = mod().StateSpaceDynamicsLearning([], [], L, o)
        th = [h.real("thr%d" % i, -1, 1) for i in range(3)]
        prev = None
        for rnd_ in range(2 if warm else 1):
            L.calls = []
            kw = dict(lyap_pos_threshold=th[0], lyap_der_lo_threshold=th[1],
                      lyap_der_up_threshold=th[2]) if thr else {}
            tag = rnd_
            keep = h.real

            def real(name, *a, **k):
                return keep("r%d_" % tag + name, *a, **k)
            h.real = real
            try:
                got = D.lyapunov_loss(**kw)
                P = programs(h, L, o, "losses")
                W = (o.lyap_pos_loss_weight, o.lyap_der_lo_loss_weight,
                     o.lyap_der_up_loss_weight)
                for i, (g, d, w) in enumerate(zip(got, P, W)):
                    m = d["milp"]
                    h.true(len(m.gurobi_model.cb) == 1, "solved once")
                    check_callback(h, m.gurobi_model.cb[0], None if optimal
                                   else th[i] if thr else 0., "stop %d" % i)
                    if i in incorrect:
                        h.eq(h.scalar(g), 0., "no gradient, no loss")
                        continue
                    v = m.value(0)
                    h.eq(h.scalar(g), w * v[0], "weighted optimum")
                    for p in L.params:
                        p.grad = None
                    g.backward()
                    for p, s in zip(L.params, v[1]):
                        h.eq(h.elems(p.grad).reshape(-1), w * s,
                             "gradient of the optimum")
                if warm:
                    for i, d in enumerate(P):
                        same(h, d["x_warmstart"], prev[i] if prev else
                             h.elems(L.system.x_equilibrium),
                             "starts from the last counterexample")
                    prev = [d["milp"].X[0] for d in P]
                else:
                    for d in P:
                        h.true(d["x_warmstart"] is None, "no start")
            finally:
                h.real = keep
    return f


for i_, a_ in enumerate(((1, 1, None, True, False),
                         (2, 2, "free", True, True),
                         (1, 1, "free", False, False),
                         (1, 2, None, False, True),
                         (1, 1, None, False, False, (0, 2)),
                         (1, 1, None, False, False, (1, ), False))):
    R.put(program_losses(*a_), "program-losses-%d" % i_,
          "%d pooled solutions" % a_[1])


def adversarial(nx, n, rk, optimal):
    def f(h):
        tR, Rm = transform(h, nx, rk)
        o = options(h, nx, R=tR, lyap_loss_optimal=optimal)
        L = fake_lyap(h, nx, n)
        D = mod().StateSpaceDynamicsLearning([], [], L, o)
        got = D.adversarial_samples()
        P = programs(h, L, o, "samples")
        h.true(len(got) == 3, "samples of each kind")
        for i, (g, d, nm) in enumerate(zip(got, P, (
                "positivity", "lower", "upper"))):
            m = d["milp"]
            check_callback(h, m.gurobi_model.cb[0], None if optimal else 0.,
                           nm)
            want = [m.X[k] for k in range(n) if bool(m.obj[k] > 0)]
            same(h, g, np.array(want, dtype=object).reshape(-1, nx),
                 "violating solutions of " + nm)
            h.cover("%d" % len(want))
    return f


for i_, a_ in enumerate(((1, 1, None, True), (2, 2, "free", True),
                         (1, 3, None, False))):
    R.put(adversarial(*a_), "adversarial-%d" % i_,
          "%d pooled solutions" % a_[1])


# ---------------------------------------------------------------- training
def train(freq, batches, vbatches, epochs, validate, only, save, sizes=(2, 1)):
    def f(h):
        m = mod()
        L = fake_lyap(h, 1, 1)
        o = options(h, 1, lyap_loss_freq=freq)
        ms = [("x%d" % i, sizes[i % 2]) for i in range(batches)]
        data = [(h.tensor(a, (n, 1), -2, 2), h.tensor("n" + a, (n, 1), -2, 2))
                for a, n in ms]
        vdata = [(h.tensor("v%d" % i, (sizes[i % 2], 1), -2, 2),
                  h.tensor("nv%d" % i, (sizes[i % 2], 1), -2, 2))
                 for i in range(vbatches)]
        D = m.StateSpaceDynamicsLearning(data, vdata, L, o)
        calls, saved = [], []

        def loss(kind, *a):
            i = len(calls)
            v = (h.real("l%d_%d" % (i, len(a)), -2, 2),
                 [h.reals("g%d_%d_%d_" % (i, len(a), j), p.numel(), -2, 2)
                  for j, p in enumerate(L.params)])
            return v

        def dyn(x, y):
            v = loss("dyn", x)
            calls.append(("dyn", (x, y), [v], nstep()))
            return lin_loss(h, v, L.params)

        def samp(x):
            vs = []
            for k in range(3):
                vs.append(loss("samp", *range(k + 2)))
            calls.append(("samp", (x, ), vs, nstep()))
            return tuple(lin_loss(h, v, L.params) for v in vs)

        def prog(lyap_pos_threshold=0., lyap_der_lo_threshold=0.,
                 lyap_der_up_threshold=0.):
            vs = []
            for k in range(3):
                vs.append(loss("prog", *range(k + 2)))
            calls.append(("prog", (lyap_pos_threshold, lyap_der_lo_threshold,
                                   lyap_der_up_threshold), vs, nstep()))
            return tuple(lin_loss(h, v, L.params) for v in vs)

        def nstep():
            return len(made[0].log) if made else 0
        D.dynamics_loss, D.lyapunov_loss_at_samples = dyn, samp
        D.lyapunov_loss = prog
        D.save = lambda path: saved.append((path, nstep()))
        keep = m.SummaryWriter
        m.SummaryWriter = Writer
        made = []
        try:
            with Patched(h) as made:
                if only:
                    D.reset_optimizer(lyapunov_only=True)
                D.train(epochs, validate=validate, save_rate=save or 0,
                        save_path=None if save is None else "somewhere")
        finally:
            m.SummaryWriter = keep
        h.true(len(made) == 1, "one optimiser")
        opt = made[0]
        want = L.params[:1] if only else L.params
        h.true({id(p) for p in opt.params} == {id(p) for p in want} and
               len(opt.params) == len(want), "what is trained")
        # replay
        it = iter(calls)
        steps, k, ends = [], 0, []

        def total(vs):
            return [sum(v[1][j] for v in vs) for j in range(len(L.params))]
        expect = []
        for e in range(epochs):
            for x, y in data:
                seen = [next(it), next(it)]
                d = [q for q in seen if q[0] == "dyn"]
                s = [q for q in seen if q[0] == "samp"]
                h.true(len(d) == 1 and len(s) == 1, "losses of a batch")
                same(h, d[0][1][0], x, "states of the batch")
                same(h, d[0][1][1], y, "next states of the batch")
                same(h, s[0][1][0], x, "samples of the batch")
                h.true(d[0][3] == s[0][3] == len(steps), "before the step")
                steps.append(total(d[0][2] + s[0][2]))
                expect += [("Dynamics/train", d[0][2][0][0]),
                           ("LyapunovPosSamples/train", s[0][2][0][0]),
                           ("LyapunovDerSamples/low/train", s[0][2][1][0]),
                           ("LyapunovDerSamples/up/train", s[0][2][2][0])]
                if freq > 0 and k % freq == 0:
                    s, p = next(it), next(it)
                    h.true(s[0] == "samp" and p[0] == "prog" and
                           s[3] == p[3] == len(steps), "program losses")
                    same(h, s[1][0], x, "samples of the batch")
                    for a, v in zip(p[1], s[2]):
                        h.eq(a, v[0], "threshold: loss at the samples")
                    steps.append(total(p[2]))
                    expect += [("LyapunovPos/train", p[2][0][0]),
                               ("LyapunovDer/low/train", p[2][1][0]),
                               ("LyapunovDer/up/train", p[2][2][0])]
                    h.cover("program")
                k += 1
            if validate:
                acc, n = [0., 0., 0., 0.], 0
                for x, y in vdata:
                    seen = [next(it), next(it)]
                    d = [q for q in seen if q[0] == "dyn"]
                    s = [q for q in seen if q[0] == "samp"]
                    h.true(len(d) == 1 and len(s) == 1, "validation losses")
                    same(h, d[0][1][0], x, "validation states")
                    same(h, d[0][1][1], y, "validation next states")
                    same(h, s[0][1][0], x, "validation samples")
                    vs = [d[0][2][0][0]] + [q[0] for q in s[0][2]]
                    q = x.shape[0]
                    acc = [a + q * v for a, v in zip(acc, vs)]
                    n += q
                expect += [(nm + "/validate", a / n) for nm, a in zip(
                    ("Dynamics", "LyapunovPosSamples",
                     "LyapunovDerSamples/low", "LyapunovDerSamples/up"),
                    acc)]
            ends.append(len(steps))
        h.true(next(it, None) is None, "no other losses")
        h.true(len(opt.log) == len(steps), "number of steps")
        for g, w in zip(opt.log, steps):
            for q, gq in zip(opt.params, g):
                j = [id(p) for p in L.params].index(id(q))
                h.eq(gq, w[j], "gradient of the step")
        got = D.writer.got
        by = {}
        for nm, v, st in got:
            by.setdefault(nm, []).append(v)
        wb = {}
        for nm, v in expect:
            wb.setdefault(nm, []).append(v)
        h.true(set(by) == set(wb) and all(
            len(by[q]) == len(wb[q]) for q in wb), "what is reported")
        for nm in wb:
            for a, b in zip(by[nm], wb[nm]):
                h.eq(h.elems(a).reshape(-1)[0] if isinstance(a, torch.Tensor)
                     else a, b, "report " + nm)
        w = []
        if save is not None:
            w = [("somewhere", ends[e]) for e in range(epochs)
                 if save and e % save == 0]
            w.append(("somewhere", ends[-1]))
        h.true(saved == w, "saved")
    return f


for i_, a_ in enumerate(((0, 2, 1, 1, False, False, None),
                         (1, 1, 1, 2, True, False, 0),
                         (2, 2, 2, 2, True, False, 1),
                         (3, 2, 1, 2, False, True, 2),
                         (-1, 1, 1, 1, True, True, None))):
    R.put(train(*a_), "train-%d" % i_, "%d epochs of %d batches" % (
        a_[3], a_[1]))


# ------------------------------------------------------------ latent space
class Enc(torch.nn.Module):
    def __init__(self, c, z, seed=3):
        super().__init__()
        self.z = z
        self.lin = torch.nn.Linear(c * 2, 2 * z, dtype=F64)
        self.lin.weight.data = tt(rnd(seed, (2 * z, c * 2), q=4))
        self.lin.bias.data = tt(rnd(seed + 1, (2 * z, ), q=4))

    def forward(self, x):
        y = self.lin(torch.flatten(x, start_dim=1))
        return y[:, :self.z], y[:, self.z:]

    def val(self, x):
        y = netfun([self.lin], x.reshape(-1))
        return y[:self.z], y[self.z:]


class Dec(torch.nn.Module):
    def __init__(self, c, z, bce, seed=5):
        super().__init__()
        self.c, self.bce = c, bce
        self.lin = torch.nn.Linear(z, c * 2, dtype=F64)
        self.lin.weight.data = tt(rnd(seed, (c * 2, z), q=4))
        self.lin.bias.data = tt(rnd(seed + 1, (c * 2, ), q=4))

    def forward(self, z):
        y = self.lin(z).view(z.shape[0], self.c, 1, 2)
        return torch.sigmoid(y) if self.bce else y

    def val(self, z):
        y = netfun([self.lin], z).reshape(self.c, 1, 2)
        if self.bce:
            y = sig(y)
        return y


def sig(y):
    o = np.empty(y.shape, dtype=object)
    for i in np.ndindex(*y.shape):
        v = y[i]
        o[i] = v.sigmoid() if hasattr(v, "sigmoid") else 1 / (1 + np.exp(-v))
    return o


def err(target, pred, bce):
    """Elementwise error."""
    if not bce:
        return (target - pred)**2
    return -(target * vmax(log(pred), -100.) +
             (1 - target) * vmax(log(1 - pred), -100.))


def latent(h, nz, c2, bce, vae, dec_eq, residual=False, **kw):
    L, step, value = real_lyap(h, nz, residual)
    o = options(h, nz, use_bce=bce, use_variational=vae, **kw)
    E, G = Enc(c2, nz), Dec(c2, nz, bce)
    q = h.tensor("deq", (c2, 1, 2), 0, 1) if dec_eq else None
    D = mod().LatentSpaceDynamicsLearning([], [], L, o, E, G,
                                          decoded_equilibrium=q)
    return D, step, value, E, G, q


def encode(h, E, X, vae, noise):
    mu, lv, Z = [], [], []
    for i, x in enumerate(X):
        m, v = E.val(x)
        mu.append(m)
        lv.append(v)
        Z.append(m + noise[i] * exp(.5 * v) if vae else m)
    return mu, lv, Z


def kl(mu, lv):
    return -sum((1 + v - m * m - exp(v)).sum()
                for m, v in zip(mu, lv)) / (2 * len(mu))


def latent_loss(nz, c2, cn, n, bce, vae, dec_eq, residual=False):
    def f(h):
        D, step, value, E, G, q = latent(h, nz, c2, bce, vae, dec_eq,
                                         residual)
        D.n_iter = 2    # the centre of the schedule: weight one
        x = h.tensor("x", (n, c2, 1, 2), 0, 1)
        y = h.tensor("y", (n, cn, 1, 2), 0, 1)
        X, Y = h.elems(x).copy(), h.elems(y).copy()
        with Rand(h, 2.) as rn:
            r = D.dynamics_loss(x, y)
        noise = rn.log[0] if vae else None
        h.true(len(rn.log) == (1 if vae else 0), "one draw")
        mu, lv, Z = encode(h, E, X, vae, noise)
        tot = 0.
        for i in range(n):
            t = np.concatenate((X[i][cn:], Y[i])) if cn < c2 else Y[i]
            tot = tot + err(X[i], G.val(Z[i]), bce).sum() + err(
                t, G.val(step(Z[i])), bce).sum()
        tot = tot / (n * c2 * 2)
        if vae:
            tot = tot + kl(mu, lv)
        if q is not None:
            tot = tot + .5 * err(h.elems(q), G.val(h.elems(
                D.lyap.system.x_equilibrium)), bce).sum() / (c2 * 2)
        h.eq(h.scalar(r), tot, "reconstruction, prediction, divergence and "
             "equilibrium terms")
    return f


for i_, (a_, t_) in enumerate((
        ((1, 2, 1, 2, False, False, False), "quick"),
        ((2, 2, 1, 1, False, False, True), "quick"),
        ((1, 2, 1, 1, False, True, True), "quick"),
        ((1, 2, 2, 2, True, False, False), "quick"),
        ((1, 2, 1, 1, True, True, True, True), "quick"),
        ((2, 2, 1, 2, False, True, False, True), "thorough"),
        ((1, 6, 3, 1, False, False, True), "quick"))):
    R.put(latent_loss(*a_), "latent-loss-%d" % i_, "%d images" % a_[3],
          tier=t_)


def vae_forward(nz, c2, n, vae):
    def f(h):
        D, step, value, E, G, q = latent(h, nz, c2, False, vae, False)
        x = h.tensor("x", (n, c2, 1, 2), 0, 1)
        X = h.elems(x).copy()
        with Rand(h, 2.) as rn:
            dec, nxt, m, v, zn = D.vae_forward(x)
        noise = rn.log[0] if vae else None
        mu, lv, Z = encode(h, E, X, vae, noise)
        obj = lambda a: np.array([list(np.asarray(  # noqa
            q, dtype=object).reshape(-1)) for q in a], dtype=object)
        same(h, m, obj(mu), "means")
        if vae:
            same(h, v, obj(lv), "log variances")
        same(h, dec.reshape(n, -1), obj([G.val(z) for z in Z]), "decoded")
        same(h, zn, obj([step(z) for z in Z]), "next latent states")
        same(h, nxt.reshape(n, -1), obj([G.val(step(z)) for z in Z]),
             "decoded next states")
    return f


for a_ in ((1, 2, 2, False), (2, 2, 1, True), (1, 2, 2, True)):
    R.put(vae_forward(*a_), "forward-%d-%d-%d-%d" % a_, "%d images" % a_[2])


def kl_loss(nz, n, step):
    def f(h):
        lo, up = h.real("lo", 0, 2), h.real("up", 0, 2)
        L, _, _ = real_lyap(h, nz, False)
        o = options(h, nz, use_variational=True, kl_weight_lo=lo,
                    kl_weight_up=up)
        D = mod().LatentSpaceDynamicsLearning([], [], L, o, Enc(2, nz),
                                              Dec(2, nz, False))
        D.n_iter = step
        mu, lv = h.tensor("mu", (n, nz), -2, 2), h.tensor("lv", (n, nz), -2,
                                                          2)
        M, V = h.elems(mu).copy(), h.elems(lv).copy()
        if h.symbolic:
            for v in V.reshape(-1):
                h.assume(exp(v) >= 1 + v)
                h.assume(IMPLIES(exp(v) == 1 + v, v == 0))
                h.assume(exp(v) <= 8)    # as v <= 2
        r = h.scalar(D.kl_loss(mu, lv))
        w = lo + (up - lo) / (1 + np.exp(-(step - 2) / 3))
        k = kl(list(M), list(V))
        h.true(near(r, w * k, 1e-9), "weighted Gaussian divergence")
        h.true(k >= (0 if h.symbolic else -1e-9), "never negative")
        if h.symbolic:
            h.true(IMPLIES(k == 0, AND([q == 0 for q in np.concatenate(
                (M, V)).reshape(-1)])), "zero only at the standard normal")
    return f


for a_ in ((1, 1, 0), (1, 2, 2), (2, 1, 5)):
    R.put(kl_loss(*a_), "kl-%d-%d-%d" % a_, "%d samples" % a_[1])


def latent_optimizer(only):
    """All that is trained, and nothing else, is given to the optimiser."""
    def f(h):
        D, step, value, E, G, q = latent(h, 1, 2, False, True, True)
        save = mod().SummaryWriter
        mod().SummaryWriter = lambda *a, **k: "w"
        D.n_iter = 7
        try:
            with Patched(h) as made:
                D.reset_optimizer(lyapunov_only=only)
        finally:
            mod().SummaryWriter = save
        nets = [D.lyap.lyapunov_relu]
        if not only:
            nets += [D.lyap.system.dynamics_relu, E, G]
        want = {id(p) for n in nets for p in n.parameters()}
        got = [id(p) for p in made[0].params]
        h.true(len(made) == 1 and D.optimizer is made[0], "optimiser")
        h.true(set(got) == want and len(got) == len(want), "parameters")
        h.true(D.n_iter == 0 and D.writer == "w", "counters restart")
        h.cover("optimiser")
    return f


R.put(latent_optimizer(False), "latent-optimizer-all", "one latent state")
R.put(latent_optimizer(True), "latent-optimizer-lyapunov", "one latent state")


def saved(kind):
    """Loading what was saved gives the same parts."""
    def f(h):
        m = mod()
        if kind == "latent":
            D, step, value, E, G, q = latent(h, 1, 2, False, False, True)
        else:
            L, step, value = real_lyap(h, 1, False)
            D = m.StateSpaceDynamicsLearning([], [], L, options(h, 1))
        log = []

        class Pickle:
            HIGHEST_PROTOCOL = 5

            @staticmethod
            def dump(o, f, *a, **k):
                f.write(b"%c" % len(log))
                log.append(o)

            @staticmethod
            def load(f):
                return log[f.read(1)[0]]
        save, m.pickle = m.pickle, Pickle
        d = tempfile.mkdtemp()
        try:
            t = os.path.join(d, "a", "b")
            D.save(t)
            D.save(t)    # again, over the old file
            T, V, o = [], [], D.opt
            N = type(D).load(t, T, V, o)
        finally:
            m.pickle = save
            shutil.rmtree(d)
        h.true(type(N) is type(D) and N.lyap is D.lyap, "lyapunov function")
        h.true(N.train_dataloader is T and N.validation_dataloader is V,
               "data")
        h.true(N.opt is o, "options")
        if kind == "latent":
            h.true(N.encoder is E and N.decoder is G, "networks")
            h.eq(h.elems(N.decoded_equilibrium),
                 h.elems(D.decoded_equilibrium), "decoded equilibrium")
        h.cover("loaded")
    return f


R.put(saved("latent"), "saved-latent", "networks and options given back")
R.put(saved("state"), "saved-state", "networks and options given back")


def latent_at_samples(nz, n, vae, residual=False):
    def f(h):
        D, step, value, E, G, q = latent(h, nz, 2, False, vae, False,
                                         residual)
        x = h.tensor("x", (n, 2, 1, 2), -2, 2)
        X = h.elems(x).copy()
        with Rand(h, 2.) as rn:
            got = D.lyapunov_loss_at_samples(x)
        mu, lv, Z = encode(h, E, X, vae, rn.log[0] if vae else None)
        want, ins = hinge_terms(h, Z, h.elems(D.opt.z_lo_stable),
                                h.elems(D.opt.z_up_stable), step, value, None,
                                h.elems(D.lyap.system.x_equilibrium))
        for g, w, m in zip(got, want, ("positivity", "decrease at least",
                                       "decrease at most")):
            h.eq(h.elems(g).reshape(-1)[0], w, m)
        h.cover("none" if not ins else "some")
    return f


for a_ in ((1, 1, False), (1, 1, True, True), (1, 2, False)):
    R.put(latent_at_samples(*a_), "latent-at-samples-%d-%d-%d" % a_[:3],
          "%d images" % a_[1])


def latent_rollout(nz, c2, N, decode, vae, bce, residual=False, n=1):
    def f(h):
        D, step, value, E, G, q = latent(h, nz, c2, bce, vae, False, residual)
        c = c2 // 2
        T = [h.tensor("t%d" % i, (N + 2, c, 1, 2), 0, 1) for i in range(n)]
        want = []

        def roll(x0, noise):
            X = [x0[:c], x0[c:]]
            Z = [E.val(x0)[0]]
            for k in range(N):
                if decode:
                    m, v = E.val(np.concatenate((X[k], X[k + 1])))
                    z = m + noise[k][0] * exp(.5 * v) if vae else m
                    Z.append(step(z))
                else:
                    Z.append(step(Z[-1]))
                X.append(G.val(Z[-1])[c:])
            return np.array(X, dtype=object), np.array(Z, dtype=object)
        t = h.elems(T[0])
        x0 = np.concatenate((t[0], t[1]))
        with Rand(h, 2.) as rn:
            X, V, Z = D.rollout(h.as_tensor(x0), N,
                                decode_intermediate=decode)
        wX, wZ = roll(x0, rn.log)
        same(h, X, wX, "images")
        same(h, Z, wZ, "latent states")
        same(h, V, np.array([value(z) for z in wZ], dtype=object),
             "Lyapunov values")
        if vae and decode:
            return
        want = []
        for t in T:
            t = h.elems(t)
            wX, _ = roll(np.concatenate((t[0], t[1])), None)
            if bce:     # decoded images lie inside (0,1)
                for i in range(2):
                    h.assume(AND([AND(v > 0, v < 1)
                                  for v in wX[i].reshape(-1)]))
            want.append(np.array([err(t[k], wX[k], bce).sum() / (c * 2)
                                  for k in range(N + 2)], dtype=object))
        for t, w in zip(T, want):
            same(h, D.rollout_loss(t, decode), w, "error along the rollout")
        if not decode:
            same(h, D.rollout_validation(list(T)), sum(want) / n,
                 "mean over the rollouts")
    return f


for i_, (a_, t_) in enumerate((
        ((2, 2, 1, False, False, False), "quick"),
        ((1, 2, 0, False, False, False), "quick"),
        ((2, 2, 2, True, False, False, True), "quick"),
        ((2, 2, 1, True, True, False), "quick"),
        ((2, 2, 1, False, True, True), "quick"),
        ((2, 2, 1, True, False, True, True), "quick"),
        ((2, 2, 1, False, False, False, False, 2), "quick"),
        ((2, 6, 1, False, False, False), "quick"),
        ((1, 2, 1, False, False, False), "quick"),
        ((2, 2, 2, False, False, False), "thorough"))):
    R.put(latent_rollout(*a_), "latent-rollout-%d" % i_, "%d steps" % a_[2],
          tier=t_)


# --------------------------------------------------------------- utilities
def annealing():
    def f(h):
        u = loader.module("utils")
        lo, up = h.real("lo", -2, 2), h.real("up", -2, 2)
        h.assume(lo <= up)
        c, k = h.real("c", 0, 5), h.real("k", .5, 5)
        s = [h.real("s%d" % i, 0, 9) for i in range(2)]
        h.assume(s[0] <= s[1])
        A = u.SigmoidAnneal(F64, lo, up, c, k)
        v = [h.scalar(A(q)) for q in s]
        mid = h.scalar(A(c))
        a = [(q - c) / k for q in s]
        S = [sig(np.array([q], dtype=object))[0] for q in a]
        for q, w in zip(v, S):
            h.eq(q, lo + (up - lo) * w, "schedule")
        if h.symbolic:
            h.assume(IMPLIES(a[0] <= a[1], S[0] <= S[1]))
        h.le(v[0], v[1], "monotone")
        for q in v:
            h.le(lo, q, "at least the lower limit")
            h.le(q, up, "at most the upper limit")
        h.eq(mid, (lo + up) / 2, "halfway at the centre")
    return f


R.put(annealing(), "annealing", "any limits, centre, width and two steps")


def opts():
    def f(h):
        m = mod()
        a, b, c = [h.real(q, -2, 2) for q in "abc"]
        o = m.DynamicsLearningOptions(dict(p=a))
        h.true(o.p is a, "given")
        o.set_option("q", b)
        o.set_options(dict(p=c))
        h.eq(o.p, c, "replaced")
        h.eq(o.q, b, "added")
        try:
            o.r
            h.fail("missing option is not reported")
        except AttributeError:
            pass
    return f


R.put(opts(), "options", "three values")


def tlog(dim, first, n):
    def f(h):
        m = loader.module("training_log")
        w = Writer()
        T = m.TrainingLog(dim, prefix="p", writer=w, first_value_only=first)
        rows = []
        for i in range(n):
            r = h.array("r%d" % i, dim, -2, 2)
            q = h.array("q%d" % i, dim, -2, 2)
            rows.append((np.array(r, dtype=object),
                         np.array(q, dtype=object)))
            T.add_train_loss(r)
            T.add_validation_loss(q)
        cp = m.TrainingLog.get_copy(T, prefix="c", keep_writer=True)
        x = h.array("x", dim, -2, 2)
        nw = len(w.got)
        cp.add_train_loss(x)
        h.true(cp.writer is w and cp.prefix == "c" and
               cp.first_value_only == first, "copy")
        h.true(all("c" in q[1] for q in w.got[nw:]), "copy writes its prefix")
        for L, k in ((T, 0), (cp, 1)):
            want = [r for r, _ in rows] + ([x] if k else [])
            same(h, L.train_losses, np.array(
                [list(v) for v in want], dtype=object).reshape(-1, dim),
                "training losses in order")
            same(h, L.validation_losses, np.array(
                [list(v) for _, v in rows], dtype=object).reshape(-1, dim),
                "validation losses in order")
        i = 0
        for e in range(n):
            for nm, r in (("Train", rows[e][0]), ("Validation", rows[e][1])):
                for j in range(1 if first else dim):
                    name, val, st = w.got[i]
                    h.true(name == (nm if first else "%s_%d" % (nm, j)) and
                           list(val) == ["p"] and st == e + 1, "report")
                    h.eq(val["p"], r[j], "reported value")
                    i += 1
        h.true(i == nw, "nothing else reported")
    return f


for a_ in ((1, False, 1), (2, False, 2), (2, True, 1)):
    R.put(tlog(*a_), "log-%d-%d-%d" % a_, "%d entries" % a_[2])
