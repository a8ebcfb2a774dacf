"""Combining the gradients of two losses."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, where, pnp, tt, F64)

HARNESSES = R = Registry()
BOUNDS = ("Networks of 1-4 parameter tensors with up to six entries; both "
          "gradients arbitrary in [-2,2]; the five modes; gradients left "
          "unset or zeroed before the call.")
ASSUMPTIONS = ["real arithmetic for float64",
               "both losses depend on every parameter",
               "gradients are cleared before the call, as every caller does"]

SHAPES = {"1": [(2, )], "2": [(1, ), (2, 1)], "3": [(1, 2), (1, ), (2, 1)],
          "4": [(2, 2), (2, ), (1, 2), (1, )]}
MODES = ("LOSS1", "LOSS2", "BOTH", "EMPHASIZE_LOSS1", "EMPHASIZE_LOSS2")


class Net(torch.nn.Module):
    def __init__(self, shapes):
        super().__init__()
        self.ps = torch.nn.ParameterList([
            torch.nn.Parameter(torch.zeros(s, dtype=F64)) for s in shapes])


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), 0)


def combine(mode, shape, zeroed, keep):
    def f(h):
        t = loader.module("train_utils")
        net = Net(SHAPES[shape])
        ps = list(net.parameters())
        g1 = [h.tensor("a%d" % i, tuple(p.shape)) for i, p in enumerate(ps)]
        g2 = [h.tensor("b%d" % i, tuple(p.shape)) for i, p in enumerate(ps)]
        l1 = sum((g * p).sum() for g, p in zip(g1, ps))
        l2 = sum((g * p + 1.5 * p * p).sum() for g, p in zip(g2, ps)) * 1.
        if zeroed:
            for p in ps:
                p.grad = torch.zeros_like(p)
        need, n1, n2 = t.project_gradient(
            net, l1, l2, getattr(t.ProjectGradientMode, mode),
            **(dict(retain_graph=True) if keep else {}))
        a = np.concatenate([h.elems(g).reshape(-1) for g in g1])
        b = np.concatenate([h.elems(g).reshape(-1) for g in g2])
        h.eq(n1, a, "first gradient")
        h.eq(n2, b, "second gradient")
        got = []
        for p in ps:
            h.true(p.grad is not None and p.grad.shape == p.shape,
                   "gradient of every parameter")
            got.append(h.elems(p.grad).reshape(-1))
        got = np.concatenate(got)
        d, aa, bb = dot(a, b), dot(a, a), dot(b, b)
        if bool(d >= 0):
            h.true(not need, "no projection without conflict")
            h.eq(got, a + b, "sum without conflict")
            h.cover("agree")
            return
        h.true(bool(need), "projection on conflict")
        h.assume(AND(aa > 1e-3, bb > 1e-3))
        pa, pb = a - b * (d / bb), b - a * (d / aa)
        want = {"LOSS1": pa, "LOSS2": pb, "BOTH": pa + pb,
                "EMPHASIZE_LOSS1": a + pb,
                "EMPHASIZE_LOSS2": b + pa}[mode]
        h.eq(got, want, "combined gradient")
        if mode in ("LOSS1", "EMPHASIZE_LOSS2"):
            e = dot(got, b) - (bb if mode != "LOSS1" else 0)
            h.eq(e, 0., "second loss protected")
        if mode in ("LOSS2", "EMPHASIZE_LOSS1"):
            e = dot(got, a) - (aa if mode != "LOSS2" else 0)
            h.eq(e, 0., "first loss protected")
        if mode == "BOTH" and len(a) == 2:
            h.true(AND(dot(got, a) >= -1e-6, dot(got, b) >= -1e-6),
                   "neither loss increased")
        h.cover("conflict")
    return f


for m in MODES:
    for s in SHAPES:
        R.put(combine(m, s, s in "24", s in "3"), "combine_%s_%s" % (m, s),
              "both gradients symbolic, %d parameter tensors" % len(SHAPES[s]),
              tier="quick" if s in "13" or m == "BOTH" and s == "2"
              else "thorough")


def zero(mode):
    """One loss has no gradient at the current parameters."""
    def f(h):
        t = loader.module("train_utils")
        k = h.choice("which", 3)
        net = Net(SHAPES["2"])
        ps = list(net.parameters())
        g = [h.tensor("a%d" % i, tuple(p.shape)) for i, p in enumerate(ps)]
        some = sum((q * p).sum() for q, p in zip(g, ps))
        none = sum((q * p * p).sum() for q, p in zip(g, ps))
        l1 = none if k in (0, 2) else some
        l2 = none * 2. if k in (1, 2) else some * 1.
        need, n1, n2 = t.project_gradient(net, l1, l2, getattr(
            t.ProjectGradientMode, mode), retain_graph=True)
        want = np.concatenate([h.elems(q).reshape(-1) for q in g])
        if k == 2:
            want = want * 0
        got = np.concatenate([h.elems(p.grad).reshape(-1) for p in ps])
        h.eq(got, want, "gradient of the other loss")
        h.true(not need, "no projection")
        h.cover("zero")
    return f


for m in MODES:
    R.put(zero(m), "zero_%s" % m, "the other gradient symbolic")


def network(mode):
    """Losses of a real network at symbolic weights."""
    def f(h):
        t = loader.module("train_utils")
        w, b = h.tensor("w", (1, 2)), h.tensor("b", 1)
        net = torch.nn.Sequential(torch.nn.Linear(2, 1, dtype=F64))
        net[0].weight = torch.nn.Parameter(w.clone())
        net[0].bias = torch.nn.Parameter(b.clone())
        x1, x2 = tt([[1., -2.]]), tt([[.5, 1.5]])
        l1 = (net(x1)[0, 0] - 1.)**2
        l2 = (net(x2)[0, 0] + .5)**2
        W, B = h.elems(w)[0], h.elems(b)[0]
        r1 = W[0] - 2 * W[1] + B - 1
        r2 = .5 * W[0] + 1.5 * W[1] + B + .5
        a = np.array([2 * r1, -4 * r1, 2 * r1], dtype=object)
        c = np.array([r2, 3 * r2, 2 * r2], dtype=object)
        t.project_gradient(net, l1, l2, getattr(t.ProjectGradientMode, mode))
        got = np.concatenate([h.elems(net[0].weight.grad).reshape(-1),
                              h.elems(net[0].bias.grad).reshape(-1)])
        # a.c = (-1.5) * 2 r1 * ... conflict exactly when r1 r2 has the sign
        d = dot(a, c)
        if bool(d >= 0):
            h.eq(got, a + c, "sum")
        elif mode == "LOSS1":
            h.assume(AND(OR(r1 > .01, r1 < -.01), OR(r2 > .01, r2 < -.01)))
            h.true(near(dot(got, c), 0), "orthogonal to the second")
        else:
            h.assume(AND(OR(r1 > .01, r1 < -.01), OR(r2 > .01, r2 < -.01)))
            h.true(near(dot(got, a), 0), "orthogonal to the first")
        h.cover("network")
    return f


for m in ("LOSS1", "LOSS2"):
    R.put(network(m), "network_%s" % m, "weights and bias symbolic")
