"""Activation patterns, their affine pieces and regions."""
import itertools
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import (AND, OR, IMPLIES, IFF, NOT, near, mknet, preacts,
                      netfun, pnp, where, tt, rnd, leq, patterns, F64)

HARNESSES = R = Registry()
BOUNDS = ("Networks of up to three hidden layers and six hidden units with "
          "fixed (partly symbolic) weights, every pattern, inputs symbolic in "
          "[-3,3]; three patterns of networks of up to four hidden layers and "
          "twelve units.")
ASSUMPTIONS = ["real arithmetic for float64"]


def build(h, widths, seed, slope, bias=True, sym=False, last=False):
    net = mknet(widths, seed, slope, bias, last)
    if sym:
        net[0].weight = torch.nn.Parameter(
            h.tensor("w", (widths[1], widths[0]), -1, 1))
        if bias:
            net[2].bias = torch.nn.Parameter(h.tensor("b", widths[2], -1, 1))
    return net


def split(widths, s):
    out, k = [], 0
    for w in widths[1:-1]:
        out.append(list(s[k:k + w]))
        k += w
    return out


def at_input(widths, seed, slope, **kw):
    def f(h):
        m = loader.module("relu_to_optimization")
        net = build(h, widths, seed, slope, **kw)
        x = h.tensor("x", widths[0], -3, 3)
        X = h.elems(x).copy()
        pat = m.ComputeReLUActivationPattern(net, x)
        pre = preacts(net, X)
        h.true([len(p) for p in pat] == [len(p) for p in pre], "sizes")
        for p, v in zip(pat, pre):
            for a, b in zip(p, v):
                h.true(IFF(bool(a), b >= 0), "on exactly when non-negative")
        h.eq(h.elems(x), X, "input unchanged")
        h.cover("pattern")
    return f


def all_patterns(widths, seed, slope, **kw):
    def f(h):
        m = loader.module("relu_to_optimization")
        net = build(h, widths, seed, slope, **kw)
        x = h.tensor("x", widths[0], -3, 3)
        X = h.elems(x).copy()
        got = m.compute_all_relu_activation_patterns(net, x)
        pre = preacts(net, X)
        flat = [v for p in pre for v in p]
        g = []
        for p in got:
            h.true([len(q) for q in p] == [len(v) for v in pre], "sizes")
            g.append(tuple(int(bool(b)) for q in p for b in q))
        h.true(len(set(g)) == len(g), "each pattern once")
        for s in patterns(len(flat)):
            c = AND([v >= 0 if b else v <= 0 for b, v in zip(s, flat)])
            h.true(c if s in g else NOT(c), "listed exactly when possible")
        h.eq(h.elems(x), X, "input unchanged")
        h.cover("patterns")
        h.cover("a tie", len(g) > 1)
    return f


NETS = [((1, 1, 1), 1, .1, {}), ((2, 2, 1), 2, 0, {}), ((2, 3, 2), 3, .1, {}),
        ((1, 2, 1, 1), 4, .25, {}), ((2, 2, 2, 1), 5, 0, {}),
        ((2, 3, 1), 6, .1, dict(bias=False)),
        ((1, 1, 2, 1, 2), 7, .1, {}), ((1, 2, 1), 8, .1, dict(sym=True))]
for w, s, c, kw in NETS:
    nm = "x".join(map(str, w)) + ("_sym" if kw.get("sym") else "") + \
        ("_nobias" if "bias" in kw else "")
    R.put(at_input(w, s, c, **kw), "at_input_" + nm, "input symbolic")
    R.put(all_patterns(w, s, c, **kw), "all_patterns_" + nm, "input symbolic")
R.put(all_patterns((1, 3), 9, .1, last=True), "all_patterns_1x3_last",
      "last layer activated; input symbolic")
R.put(at_input((1, 3), 9, 0, last=True), "at_input_1x3_last",
      "last layer activated; input symbolic")


def region(widths, seed, slope, **kw):
    def f(h):
        m = loader.module("relu_to_optimization")
        net = build(h, widths, seed, slope, **kw)
        W0 = [pnp(p).copy() for p in net.parameters()]
        x = h.tensor("x", widths[0], -3, 3)
        X = h.elems(x)
        pre = [v for p in preacts(net, X) for v in p]
        y = netfun(net, X)
        n = len(pre)
        for s in patterns(n):
            pat = split(widths, [bool(b) for b in s])
            g, c, P, q = m.ReLUGivenActivationPattern(net, widths[0], pat, F64)
            h.true(tuple(g.shape) == (widths[0], widths[-1]) and
                   tuple(c.shape) == (widths[-1], 1), "shape of the map")
            h.true(P.dim() == 2 and P.shape[1] == widths[0] and
                   q.numel() == P.shape[0], "shape of the region")
            P, q = pnp(P), pnp(q).reshape(-1)
            rows = P.dot(X) - q
            inP = AND([r <= 0 for r in rows])
            has = AND([v >= 0 if b else v <= 0 for b, v in zip(s, pre)])
            if h.symbolic:
                h.true(IFF(inP, has), "region is the set with the pattern")
            else:
                h.true(IMPLIES(AND([r <= -1e-7 for r in rows]), AND(
                    [v >= -1e-9 if b else v <= 1e-9
                     for b, v in zip(s, pre)])), "region has the pattern")
                h.true(IMPLIES(AND([v >= 1e-7 if b else v <= -1e-7
                                    for b, v in zip(s, pre)]), AND(
                    [r <= 1e-9 for r in rows])), "pattern is in the region")
            z = pnp(g).T.dot(X) + pnp(c).reshape(-1)
            h.true(IMPLIES(inP, AND([near(a, b) for a, b in zip(z, y)])),
                   "affine map on the region")
        for a, b in zip(W0, net.parameters()):
            h.eq(a, pnp(b), "parameters unchanged")
        h.cover("regions")
    return f


for w, s, c, kw in NETS:
    if w != (1, 1, 2, 1, 2):
        R.put(region(w, s, c, **kw), "region_" + "x".join(map(str, w)) +
              ("_sym" if kw.get("sym") else "") +
              ("_nobias" if "bias" in kw else ""),
              "input symbolic, every pattern")
R.put(region((1, 1, 2, 1, 2), 7, .1), "region_1x1x2x1x2",
      "input symbolic, every pattern")
R.put(region((2, 3, 2, 1), 17, .1), "region_2x3x2x1",
      "input symbolic, every pattern", tier="thorough")
R.put(region((3, 3, 3, 1), 18, 0), "region_3x3x3x1",
      "input symbolic, every pattern", tier="thorough")


def numbering(widths):
    """Binary vector to pattern; units numbered layer by layer."""
    def f(h):
        m = loader.module("relu_to_optimization")
        net = mknet(widths, 1, .1)
        n = sum(widths[1:-1])
        a = h.array("a", n, 0, 1)
        A = h.elems(a).copy()
        h.assume([OR(v == 0, v == 1) for v in A])
        pat = m.relu_activation_binary_to_pattern(net, a)
        h.true([len(p) for p in pat] == list(widths[1:-1]), "sizes")
        flat = [b for p in pat for b in p]
        p = m.ReLUFreePattern(net, F64)
        h.true(p.num_relu_units == n and [len(i) for i in p.relu_unit_index]
               == list(widths[1:-1]) and [j for i in p.relu_unit_index
                                          for j in i] == list(range(n)),
               "units numbered layer by layer")
        for i, u in enumerate(p.relu_unit_index):
            for j, k in enumerate(u):
                h.true(IFF(bool(pat[i][j]), A[k] == 1), "unit of the pattern")
        h.true(len(flat) == n, "every unit")
        h.cover("numbering")
    return f


for w in ((1, 1, 1), (2, 2, 1, 1), (1, 2, 3, 2)):
    R.put(numbering(w), "numbering_" + "x".join(map(str, w)),
          "binary vector symbolic")


def warmstart(widths, seed, slope):
    def f(h):
        m = loader.module("relu_to_optimization")
        g = loader.module("gurobi_torch_mip")
        net = mknet(widths, seed, slope)
        x = h.tensor("x", widths[0], -3, 3)
        n = sum(widths[1:-1])
        prog = g.GurobiTorchMILP(F64)
        b = prog.addVars(n, vtype="B")
        m.set_activation_warmstart(net, b, x)
        pre = [v for p in preacts(net, h.elems(x)) for v in p]
        for v, p in zip(b, pre):
            h.eq(v.start, where(p >= 0, 1., 0.), "start value")
        h.cover("warm start")
    return f


R.put(warmstart((2, 2, 1), 3, .1), "warmstart_2x2x1", "input symbolic")
R.put(warmstart((1, 2, 2, 1), 4, 0), "warmstart_1x2x2x1", "input symbolic")


def roundtrip(widths, seed, slope):
    """Activation computed with slacks, numbered, converted back and used."""
    def f(h):
        m = loader.module("relu_to_optimization")
        net = mknet(widths, seed, slope)
        x = h.tensor("x", widths[0], -3, 3)
        X = h.elems(x)
        pat = m.ComputeReLUActivationPattern(net, x)
        flat = np.array([1. if bool(b) else 0. for p in pat for b in p])
        back = m.relu_activation_binary_to_pattern(net, flat)
        h.true([[bool(b) for b in p] for p in back] ==
               [[bool(b) for b in p] for p in pat], "round trip")
        g, c, P, q = m.ReLUGivenActivationPattern(net, widths[0], back, F64)
        h.eq(pnp(g).T.dot(X) + pnp(c).reshape(-1), netfun(net, X),
             "affine map at the input")
        for r, e in zip(pnp(P).dot(X), pnp(q).reshape(-1)):
            h.le(r, e, "input in the region")
        h.cover("round trip")
    return f


R.put(roundtrip((2, 2, 1), 5, .1), "roundtrip_2x2x1", "input symbolic")
R.put(roundtrip((2, 2, 2, 1), 6, 0), "roundtrip_2x2x2x1", "input symbolic")


def deep(widths, seed, slope, bias=True):
    """Larger networks: the piece for one given pattern after another."""
    def f(h):
        m = loader.module("relu_to_optimization")
        net = mknet(widths, seed, slope, bias, scale=.5)
        x = h.reals("x", widths[0], -3, 3)
        N = sum(widths[1:-1])
        r = np.random.RandomState(seed)
        pre = [v for p in preacts(net, x) for v in p]
        y = netfun(net, x)
        for k in range(3):
            s = [bool(v) for v in m_pattern(net, r.uniform(-1, 1, widths[0]))]
            if k == 2:
                s = [bool(v) for v in r.randint(0, 2, N)]
            g, c, P, q = m.ReLUGivenActivationPattern(
                net, widths[0], split(widths, s), F64)
            P, q = pnp(P), pnp(q).reshape(-1)
            rows = P.dot(x) - q
            inP = AND([v <= -1e-7 for v in rows])
            has = AND([v >= 1e-7 if b else v <= -1e-7
                       for b, v in zip(s, pre)])
            for b, v in zip(s, pre):
                h.true(IMPLIES(inP, v >= -1e-9 if b else v <= 1e-9),
                       "region has the pattern")
            for v in rows:
                h.true(IMPLIES(has, v <= 1e-6), "pattern is in the region")
            z = pnp(g).T.dot(x) + pnp(c).reshape(-1)
            for a, b in zip(z, y):
                h.true(IMPLIES(has, near(a, b, 1e-6)),
                       "affine map on the region")
        h.cover("deep")
    return f


def m_pattern(net, x):
    return [float(v) >= 0 for p in preacts(net, x) for v in p]


for w, s, c in (((3, 4, 3, 2), 41, .1), ((2, 2, 2, 2, 2, 1), 42, 0),
                ((4, 6, 3), 43, .25), ((2, 5, 4, 3, 1), 44, .1)):
    R.put(deep(w, s, c), "deep_" + "x".join(map(str, w)),
          "input symbolic, three patterns")
