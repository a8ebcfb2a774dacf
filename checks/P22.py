"""Line-search optimisers."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import AND, IMPLIES, OR, where, sqrt, vmax, F64

HARNESSES = R = Registry()
BOUNDS = ("One or two parameter tensors, one to three optimiser steps, "
          "closures returning arbitrary losses (every value of every call).")
ASSUMPTIONS = ["real arithmetic for float64",
               "hyper-parameters are the listed constants"]


class Env:
    """Parameters, gradients and an arbitrary loss for every evaluation."""
    def __init__(self, h, shapes):
        self.h = h
        self.ps = [torch.nn.Parameter(h.tensor("p%d" % i, s, -2, 2, state=True))
                   for i, s in enumerate(shapes)]
        self.n = 0
        self.log = []

    def set_grad(self, k, skip=()):
        self.g = []
        for i, p in enumerate(self.ps):
            if i in skip:
                p.grad = None
                self.g.append(None)
                continue
            g = self.h.tensor("g%d_%d" % (k, i), tuple(p.shape), -2, 2,
                              state=True)
            p.grad = g
            self.g.append(self.h.elems(g).copy())

    def vals(self):
        return [self.h.elems(p.data).copy() for p in self.ps]

    def closure(self):
        if callable(self.mode):
            L = self.mode(self.n)
        else:
            L = self.h.real("L%d" % self.n, -2, 2)
        self.n += 1
        self.log.append((self.vals(), L))
        return L


def ladder(red, mn):
    a, out = 1., []
    while a > mn:
        out.append(a)
        a *= red
    return out


def check_step(h, e, x0, d, start, ret, loss0, lr_vec, rows, accept, msg):
    """e.log[start:] are the points tried; d the direction; rows the step
    sizes allowed."""
    tried = e.log[start:]
    h.true(0 < len(tried) <= len(rows), msg + ": number of trials")
    for k, (pt, L) in enumerate(tried[:len(rows)]):
        for i in range(len(x0)):
            want = x0[i] if d[i] is None else \
                x0[i] + d[i] * (rows[k] * lr_vec[i])
            h.eq(pt[i], want, msg + ": point of trial %d" % k)
        ok = accept(L, rows[k])
        if k < len(tried) - 1:
            h.true(IMPLIES(ok, False), msg + ": rejected trial %d meets the "
                   "test" % k)
        elif k < len(rows) - 1:
            h.true(ok, msg + ": accepted trial fails the test")
    h.eq(h.scalar(ret) if isinstance(ret, torch.Tensor) else ret,
         tried[-1][1], msg + ": loss returned")
    for i, v in enumerate(e.vals()):
        h.eq(v, tried[-1][0][i], msg + ": parameters left at the last trial")


def gd(cfg, shapes, steps, skip=()):
    def f(h):
        m = loader.module("line_search_gd")
        e = Env(h, shapes)
        e.mode = None
        kw = dict(cfg)
        opt = m.LineSearchGD(e.ps, **kw)
        lr = kw["lr"]
        mu = kw.get("momentum", 0)
        damp = kw.get("dampening", 0)
        wd = kw.get("weight_decay", 0)
        c1 = kw.get("loss_minimal_decrement", 1e-4)
        mi = kw.get("min_improvement", 0.)
        rows = ladder(kw.get("step_size_reduction", .2),
                      kw.get("min_step_size_decrease", 1e-4))
        buf = [None] * len(shapes)
        for k in range(steps):
            e.set_grad(k, skip)
            x0 = e.vals()
            d = []
            inc = 0
            for i in range(len(shapes)):
                if e.g[i] is None:
                    d.append(None)
                    continue
                g = e.g[i] + wd * x0[i]
                v = g
                if mu != 0:
                    buf[i] = g if buf[i] is None else \
                        buf[i] * mu + (1 - damp) * g
                    v = g + mu * buf[i] if kw.get("nesterov") else buf[i]
                d.append(-v)
                inc = inc + (g * -v).sum()
            loss0 = h.real("loss0_%d" % k, -2, 2)
            start = len(e.log)
            ret = opt.step(e.closure, loss0)
            check_step(h, e, x0, d, start, ret, loss0, [lr] * len(shapes),
                       rows, lambda L, a: AND(L <= loss0 + lr * c1 * inc,
                                              L <= loss0 - mi),
                       "step %d" % k)
        h.cover("finished")
    return f


def adam(cfg, shapes, steps, skip=(), free=False):
    def f(h):
        m = loader.module("line_search_adam")
        e = Env(h, shapes)
        e.mode = (lambda n: -1e6) if free else None
        kw = dict(cfg)
        opt = m.LineSearchAdam(e.ps, **kw)
        lr = kw.get("lr", 1e-3)
        b1, b2 = kw.get("betas", (.9, .999))
        eps = kw.get("eps", 1e-8)
        wd = kw.get("weight_decay", 0)
        c1 = kw.get("loss_minimal_decrement", 1e-4)
        mi = kw.get("min_improvement", 0.)
        rows = ladder(kw.get("step_size_reduction", .2),
                      kw.get("min_step_size_decrease", 1e-4))
        M = [0] * len(shapes)
        V = [0] * len(shapes)
        VM = [0] * len(shapes)
        for k in range(steps):
            e.set_grad(k, skip)
            x0 = e.vals()
            d = []
            dec = 0
            t = k + 1
            s = lr / (1 - b1**t)
            for i in range(len(shapes)):
                if e.g[i] is None:
                    d.append(None)
                    continue
                g = e.g[i] + wd * x0[i] if wd else e.g[i]
                M[i] = M[i] * b1 + (1 - b1) * g
                V[i] = V[i] * b2 + (1 - b2) * g * g
                U = V[i]
                if kw.get("amsgrad"):
                    VM[i] = vmax(U, VM[i])
                    U = VM[i]
                di = -M[i] / (sqrt(U) / float(np.sqrt(1 - b2**t)) + eps)
                d.append(di)
                dec = dec + s * (g * di).sum()
            loss0 = h.real("loss0_%d" % k, -2, 2)
            start = len(e.log)
            ret = opt.step(e.closure, loss0)

            def accept(L, a):
                if c1 is None:
                    return L < loss0 - mi
                return AND(L < loss0 + a * c1 * dec, L < loss0 - mi)
            check_step(h, e, x0, d, start, ret, loss0, [s] * len(shapes),
                       rows, accept, "step %d" % k)
        h.cover("finished")
    return f


G = dict(lr=.5, step_size_reduction=.5, min_step_size_decrease=.1,
         loss_minimal_decrement=.1)


def g(**k):
    d = dict(G)
    d.update(k)
    return d


R.put(gd(g(), [(2, )], 1), "gd_plain", "1 parameter of 2, 1 step")
R.put(gd(g(min_improvement=.25), [(1, ), (2, 1)], 1), "gd_two_params",
      "2 parameters, 1 step")
R.put(gd(g(weight_decay=.25, min_step_size_decrease=.3), [(2, )], 2),
      "gd_weight_decay", "2 steps")
R.put(gd(g(momentum=.5, dampening=.25, weight_decay=.5,
           min_step_size_decrease=.3), [(1, )], 2),
      "gd_momentum", "2 steps")
R.put(gd(g(momentum=.5, nesterov=True, min_step_size_decrease=.6),
         [(1, )], 3), "gd_nesterov", "3 steps")
R.put(gd(g(momentum=.5, dampening=.25, min_step_size_decrease=.6),
         [(1, )], 3), "gd_momentum_3", "3 steps")
R.put(gd(g(), [(1, ), (2, )], 1, skip=(0, )), "gd_no_grad",
      "a parameter without gradient")
R.put(gd(dict(lr=.25), [(1, )], 1), "gd_defaults", "default search constants")
A = dict(lr=.5, betas=(.5, .75), eps=.125, step_size_reduction=.5,
         min_step_size_decrease=.3, loss_minimal_decrement=.1)


def a(**k):
    d = dict(A)
    d.update(k)
    return d


R.put(adam(a(), [(2, )], 1), "adam_plain", "1 parameter of 2, 1 step")
R.put(adam(a(min_improvement=.25), [(1, ), (1, 1)], 1), "adam_two_params",
      "2 parameters, 1 step")
R.put(adam(a(weight_decay=.25), [(1, )], 1), "adam_weight_decay", "1 step")
R.put(adam(a(loss_minimal_decrement=None, min_improvement=.25), [(1, )], 1),
      "adam_no_armijo", "1 step")
R.put(adam(a(loss_minimal_decrement=None), [(2, )], 3, free=True),
      "adam_direction_3", "3 steps, search accepts")
R.put(adam(a(loss_minimal_decrement=None, weight_decay=.5), [(1, )], 2,
           free=True), "adam_direction_wd", "2 steps, search accepts")
R.put(adam(a(loss_minimal_decrement=None, amsgrad=True), [(1, )], 2,
           free=True), "adam_amsgrad", "2 steps, search accepts")
R.put(adam(a(), [(1, ), (2, )], 1, skip=(1, )), "adam_no_grad",
      "a parameter without gradient")
R.put(adam(dict(lr=.25, loss_minimal_decrement=None), [(1, )], 1),
      "adam_defaults", "default constants")
