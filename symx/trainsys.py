"""Stand-ins for training loops: programs with an arbitrary pool of
solutions, losses with arbitrary values and gradients, optimisers that move
their parameters anywhere."""
import numpy as np
import torch

from symx import gurobi_stub as gs


class Model(gs.Model):
    """A program whose pool of solutions is given."""
    def optimize(self, callback=None):
        self.cb.append(callback)
        self.at.append(dict(self.Params.d))
        self._sols = self.pool
        self._status = gs.GRB.OPTIMAL


class Milp:
    """Pool of n solutions (arbitrary points and objectives, best first);
    the loss of solution k depends on the parameters through a slope."""
    def __init__(self, h, tag, nx, n, params=(), ng=0):
        self.gurobi_model = m = Model()
        m.cb, m.at = [], []
        self.x = [m.addVar(lb=-gs.GRB.INFINITY) for _ in range(nx)]
        self.gamma = [m.addVar(vtype="B") for _ in range(ng)]
        self.h, self.tag, self.params = h, tag, list(params)
        self.X = [h.reals("%s_x%d_" % (tag, k), nx, -2, 2) for k in range(n)]
        self.obj = [h.real("%s_o%d" % (tag, k), -2, 2) for k in range(n)]
        for a, b in zip(self.obj, self.obj[1:]):
            h.assume(a >= b)
        self.mode = [h.choice("%s_g%d" % (tag, k), ng) if ng else None
                     for k in range(n)]
        m.pool = []
        for k in range(n):
            d = {v: gs.scal(c) for v, c in zip(self.x, self.X[k])}
            d.update({v: gs.scal(float(i == self.mode[k]))
                      for i, v in enumerate(self.gamma)})
            m.pool.append((gs.scal(self.obj[k]), d))
        self.losses = {}

    def value(self, k):
        """(constant, slopes) of the loss of solution k."""
        if k not in self.losses:
            self.losses[k] = (
                self.h.real("%s_l%d" % (self.tag, k), -2, 2),
                [self.h.reals("%s_s%d_%d_" % (self.tag, k, i), p.numel(),
                              -2, 2) for i, p in enumerate(self.params)])
        return self.losses[k]

    def compute_objective_from_mip_data_and_solution(
            self, solution_number=0, penalty=0.):
        return lin_loss(self.h, self.value(solution_number), self.params)


def lin_loss(h, v, params):
    """Value v[0] whatever the parameters, gradients v[1]."""
    r = h.as_tensor(np.array([v[0]], dtype=object)).reshape(())
    for s, p in zip(v[1], params):
        r = r + (h.as_tensor(np.array(s, dtype=object)) *
                 (p - p.detach()).reshape(-1)).sum()
    return r


def linmap(h, name, nx):
    A = h.reals(name + "A", nx * nx, -2, 2).reshape(nx, nx)
    b = h.reals(name + "b", nx, -2, 2)
    return A, b


class Step:
    """Arbitrary linear next state, batched or not."""
    def __init__(self, h, nx, name="f"):
        self.h, self.nx = h, nx
        self.A, self.b = linmap(h, name, nx)

    def val(self, x):
        return self.A.dot(x) + self.b

    def __call__(self, x):
        h = self.h
        return x @ h.as_tensor(self.A).T + h.as_tensor(self.b)


def same(h, a, b, msg):
    """b: a tensor or an array of the expected values."""
    if b is None or a is None:
        h.true(a is b, msg)
        return
    a = h.elems(a) if isinstance(a, torch.Tensor) else np.asarray(
        a, dtype=object)
    b = h.elems(b) if isinstance(b, torch.Tensor) else np.asarray(
        b, dtype=object)
    h.true(tuple(a.shape) == tuple(b.shape), msg + " (shape)")
    if a.size:
        h.eq(a, b, msg)


class CbModel:
    def __init__(self, vals):
        self.v, self.stopped = vals, False

    def cbGet(self, w):
        return self.v[w]

    def terminate(self):
        self.stopped = True


def check_callback(h, cb, thr, msg):
    if thr is None:
        h.true(cb is None, msg + ": runs to the optimum")
        return
    C = gs.GRB.Callback
    best = h.real("best_" + msg, -2, 2)
    for cnt in (0, 2):
        for st in (gs.GRB.OPTIMAL, gs.GRB.INFEASIBLE):
            c = CbModel({C.MIPNODE_SOLCNT: cnt, C.MIPNODE_STATUS: st,
                         C.MIPNODE_OBJBST: best})
            cb(c, C.MIPNODE)
            if c.stopped:
                h.true(cnt > 0, msg + ": stops without a solution")
                h.true(best > thr, msg + ": stops below the threshold")
                h.cover("stops")
            elif cnt and st == gs.GRB.OPTIMAL:
                h.true(best <= thr, msg + ": goes on above the threshold")


class Opt:
    """Moves the parameters it was given anywhere."""
    made = []

    def __init__(self, params, lr=1e-3, momentum=0., **k):
        self.params, self.lr, self.momentum = [], lr, momentum
        for p in params:
            p = p["params"] if isinstance(p, dict) else [p]
            self.params += [p] if isinstance(p, torch.Tensor) else list(p)
        self.log = []
        self.k = len(Opt.made)
        self.hist = {id(p): [Opt.h.elems(p.data).reshape(-1).copy()]
                     for p in self.params}
        Opt.made.append(self)

    def zero_grad(self, set_to_none=True):
        for p in self.params:
            p.grad = None

    def step(self):
        h = Opt.h
        self.log.append([None if p.grad is None else
                         h.elems(p.grad).reshape(-1).copy()
                         for p in self.params])
        for i, p in enumerate(self.params):
            p.data = h.tensor("p%d_%d_%d" % (self.k, len(self.log), i),
                              tuple(p.shape), -2, 2, state=True)
            self.hist[id(p)].append(h.elems(p.data).reshape(-1).copy())


class Patched:
    """torch's optimisers replaced; batches in the given order."""
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        Opt.made, Opt.h = [], self.h
        o = torch.optim
        self.save = o.Adam, o.SGD

        class Adam(Opt):
            pass

        class SGD(Opt):
            pass
        o.Adam, o.SGD = Adam, SGD
        return Opt.made

    def __exit__(self, *a):
        torch.optim.Adam, torch.optim.SGD = self.save
