"""Gradient helpers."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, absv, mknet, preacts, pnp,
                      patterns, where, vmax, F64)

HARNESSES = R = Registry()
BOUNDS = ("Inputs symbolic in [-3,3] of dimension 1-4, tolerance symbolic in "
          "[0,0.5]; networks of up to five hidden units in up to two hidden layers "
          "with fixed or symbolic weights.")
ASSUMPTIONS = ["real arithmetic for float64"]


def close(r, v):
    return AND([near(a, b) for a, b in zip(np.asarray(r, dtype=object)
                                           .reshape(-1), np.asarray(
        v, dtype=object).reshape(-1))])


def member(h, rows, ref, msg):
    """ref: list of (must, may, value).  The rows are a set between."""
    for must, may, v in ref:
        h.true(IMPLIES(must, OR([close(r, v) for r in rows])),
               msg + ": complete")
    for r in rows:
        h.true(OR([AND(may, close(r, v)) for must, may, v in ref]),
               msg + ": nothing else")


def net_grad(widths, seed, slope, last_relu=False, tol=True, bias=True,
             symw=False):
    net = mknet(widths, seed, slope, bias, last_relu)

    def f(h):
        u = loader.module("utils")
        n = net
        if symw:
            n = mknet(widths, seed, slope, bias, last_relu)
            n[0].weight = torch.nn.Parameter(
                h.tensor("w", (widths[1], widths[0])))
        x = h.tensor("x", widths[0], -3, 3)
        t = h.real("tol", 0, .5) if tol else 0.
        X = h.elems(x).copy()
        g = u.relu_network_gradient(n, x, zero_tol=t) if tol else \
            u.relu_network_gradient(n, x)
        h.true(tuple(g.shape)[1:] == (widths[-1], widths[0]), "shape")
        pre = preacts(n, X)
        flat = [v for p in pre for v in p]
        lin = [l for l in n if isinstance(l, torch.nn.Linear)]
        ref = []
        for s in patterns(len(flat)):
            must = AND([OR(v > 0 if b else v < 0, v == 0 if not tol else OR(
                absv(v) < t, v == 0)) for b, v in zip(s, flat)])
            may = AND([v >= -t - 1e-9 if b else v <= t + 1e-9
                       for b, v in zip(s, flat)])
            G, k = None, 0
            for i, l in enumerate(lin):
                W = pnp(l.weight)
                G = W if G is None else W.dot(G)
                if i < len(pre):
                    m = len(pre[i])
                    d = np.array([1. if b else float(slope or 0)
                                  for b in s[k:k + m]], dtype=object)
                    k += m
                    G = d[:, None] * G
            ref.append((must, may, G))
        rows = h.elems(g)
        # one row for each choice at the ties
        h.true(rows.shape[0] in [2**k for k in range(len(flat) + 1)],
               "number of rows")
        member(h, list(rows), ref, "gradients")
        h.eq(h.elems(x), X, "input unchanged")
        h.cover("gradient")
        h.cover("at a tie", rows.shape[0] > 1)
    return f


NETS = [((1, 1, 1), 1, .1), ((2, 2, 1), 2, .1), ((2, 3, 1), 3, 0),
        ((2, 2, 2, 1), 4, .25), ((1, 2, 2, 2), 5, .1)]
for w, s, c in NETS:
    nm = "x".join(map(str, w))
    R.put(net_grad(w, s, c), "net_%s_tol" % nm, "input, tolerance symbolic")
    R.put(net_grad(w, s, c, tol=False), "net_%s" % nm, "input symbolic")
R.put(net_grad((2, 2, 1), 6, .1, True), "net_2x2x1_last",
      "last layer activated; input, tolerance symbolic")
R.put(net_grad((2, 2), 6, 0, True), "net_2x2_last",
      "one activated layer; input, tolerance symbolic")
R.put(net_grad((2, 3, 1), 7, .1, bias=False), "net_2x3x1_nobias",
      "input, tolerance symbolic")
R.put(net_grad((1, 2, 1), 8, .1, tol=False, symw=True), "net_1x2x1_weights",
      "input, first weights symbolic")


def l1(n, tol, sub):
    def f(h):
        u = loader.module("utils")
        x = h.tensor("x", n, -3, 3)
        X = h.elems(x).copy()
        t = h.real("tol", 0, .5) if tol else 0.
        kw = {}
        if tol:
            kw["zero_tol"] = t
        vals = [1., -1.]
        if sub:
            kw["subgradient_samples"] = np.array(sub)
            vals += list(sub)
        g = u.l1_gradient(x, **kw)
        h.true(g.dim() == 2 and g.shape[1] == n and g.dtype == F64, "shape")
        rows = h.elems(g)
        for v in np.ndindex(*([len(vals)] * n)):
            p = [vals[i] for i in v]
            must, may = [], []
            for a, b in zip(p, X):
                tie = OR(b == 0, absv(b) <= t)
                if a in (1., -1.):
                    must.append(OR(a * b > 0, tie))
                    may.append(OR(a * b > 0, absv(b) <= t + 1e-9))
                else:
                    must.append(tie)
                    may.append(absv(b) <= t + 1e-9)
            # boundary of the tolerance: both answers accepted
            strict = AND([OR(absv(absv(b) - t) > 1e-9, b == 0) for b in X])
            hit = [close(r, p) for r in rows]
            h.true(IMPLIES(AND(must, strict), OR(hit)), "complete %s" % (p, ))
            h.true(IMPLIES(OR(hit), AND(may)), "nothing else %s" % (p, ))
        # every row is one of these, and they are listed once
        for r in rows:
            h.true(AND([OR([near(c, v) for v in vals]) for c in r]), "entries")
        for i in range(len(rows)):
            for j in range(i):
                h.true(OR([absv(a - b) > 1e-3 for a, b in zip(
                    rows[i], rows[j])]), "listed once")
        h.eq(h.elems(x), X, "input unchanged")
        h.cover("l1")
        h.cover("tie", len(rows) > 1)
    return f


for n in (1, 2, 3):
    R.put(l1(n, False, None), "l1_%d" % n, "input symbolic")
    R.put(l1(n, True, None), "l1_%d_tol" % n, "input, tolerance symbolic")
R.put(l1(4, True, None), "l1_4_tol", "input, tolerance symbolic",
      tier="thorough")
R.put(l1(2, False, [0., .5]), "l1_2_sub", "input symbolic")
R.put(l1(2, True, [0.]), "l1_2_tol_sub", "input, tolerance symbolic")
R.put(l1(1, True, [-.5, .25]), "l1_1_tol_sub", "input, tolerance symbolic")


def linf(n, tol):
    def f(h):
        u = loader.module("utils")
        x = h.tensor("x", n, -3, 3)
        X = h.elems(x).copy()
        t = h.real("tol", 0, .5) if tol else 0.
        g = u.l_infinity_gradient(x, max_tol=t) if tol else \
            u.l_infinity_gradient(x)
        h.true(g.dim() == 2 and g.shape[1] == n and g.dtype == F64, "shape")
        rows = h.elems(g)
        m = vmax(*[absv(v) for v in X]) if n > 1 else absv(X[0])
        hits = []
        for i in range(n):
            for s in (1, -1):
                p = np.zeros(n)
                p[i] = s
                hit = [close(r, p) for r in rows]
                tie = OR(m <= t, s * X[i] >= m - t)
                maybe = OR(m <= t + 1e-9, s * X[i] >= m - t - 1e-9)
                off = AND(OR(absv(m - t) > 1e-9, m == 0),
                          OR(absv(m - t - s * X[i]) > 1e-9, m == s * X[i]))
                h.true(IMPLIES(AND(tie, off), OR(hit)), "complete")
                h.true(IMPLIES(OR(hit), maybe), "nothing else")
                hits.append(hit)
        for r in range(len(rows)):
            h.true(OR([q[r] for q in hits]), "unit rows")
        for i in range(len(rows)):
            for j in range(i):
                h.true(OR([absv(a - b) > 1e-3 for a, b in zip(
                    rows[i], rows[j])]), "listed once")
        h.eq(h.elems(x), X, "input unchanged")
        h.cover("linf")
    return f


for n in (1, 2, 3, 4):
    R.put(linf(n, True), "linf_%d_tol" % n, "input, tolerance symbolic")
    R.put(linf(n, False), "linf_%d" % n, "input symbolic")


def mink(sx, sy):
    def f(h):
        u = loader.module("utils")
        x, y = h.tensor("x", sx), h.tensor("y", sy)
        X, Y = h.elems(x).copy(), h.elems(y).copy()
        s = u.minkowski_sum(x, y)
        h.true(tuple(s.shape) == (sx[0] * sy[0], ) + sx[1:], "shape")
        S = h.elems(s)
        for i in range(sx[0]):
            for j in range(sy[0]):
                h.eq(S[i * sy[0] + j], X[i] + Y[j], "row %d,%d" % (i, j))
        h.eq(h.elems(x), X, "x unchanged")
        h.eq(h.elems(y), Y, "y unchanged")
        h.cover("sum")
    return f


for sx, sy in (((1, ), (1, )), ((2, ), (3, )), ((3, 2), (2, 2)),
               ((1, 2), (3, 2)), ((2, 1, 2), (3, 1, 2)), ((3, 2, 2), (1, 2, 2))):
    R.put(mink(sx, sy), "sum_%s_%s" % (sx, sy), "all entries symbolic")
