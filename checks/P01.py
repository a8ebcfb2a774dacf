"""Mixed-integer encoding of a ReLU network."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.history import pattern_past
from symx.lib import (AND, OR, IMPLIES, IFF, NOT, near, mknet, preacts,
                      netfun, pnp, where, tt, rnd, leq, eqz, patterns,
                      mic_conds, mic_out, F64)

HARNESSES = R = Registry()
BOUNDS = ("Networks of up to three hidden layers and five hidden units, one to "
          "two outputs; box symbolic in [-2,2] for interval arithmetic and "
          "fixed for the optimisation-based bounds; inputs, slacks and binary "
          "variables symbolic; some weights symbolic.  Larger networks (up to "
          "four hidden layers, nine units; 16 in the thorough tier) with fixed "
          "boxes. Answers after earlier questions and weights are the same.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact"]


def box(h, n, b=2):
    lo = h.tensor("lo", n, -b, b)
    up = h.tensor("up", n, -b, b)
    h.assume([p <= q for p, q in zip(h.elems(lo), h.elems(up))])
    return lo, up


def state(net, x):
    pre = preacts(net, x)
    acts = [l for l in net if not isinstance(l, torch.nn.Linear)]
    z = [v for a, p in zip(acts, pre) for v in netfun([a], p)]
    return [v for p in pre for v in p], z


def exact(h, net, r, x, N, lo, up, n_in):
    """The constraint set r at input x."""
    pre, z = state(net, x)
    y = netfun(net, x)
    h.true(len(r.rhs_in) == 0 or tuple(r.Ain_slack.shape)[1] == N,
           "one slack and one binary for each unit")
    h.true(r.Ain_input is None or r.Ain_input.shape[1] == n_in,
           "input columns")
    # feasible with the network's own unit outputs; at a tie either binary
    h.true(OR([AND(mic_conds(h, r, list(x), z, [float(v) for v in b]))
               for b in patterns(N)]), "feasible at the network's state")
    # every feasible completion has the network's output
    s = h.reals("s", N, -40, 40)
    for b in patterns(N):
        c = mic_conds(h, r, list(x), list(s), [float(v) for v in b])
        o = mic_out(h, r, list(x), list(s), [float(v) for v in b])
        h.true(len(o) == len(y), "outputs")
        if any(v is False for v in c):
            continue
        c = AND(c)
        h.true(IMPLIES(c, AND([near(p, q, 1e-5) for p, q in zip(o, y)])),
               "output of every completion")
        h.true(IMPLIES(c, AND([near(p, q, 1e-5) for p, q in zip(s, z)])),
               "unit outputs of every completion")
    h.cover("completion")


def outside(h, r, N, lo, up, n_in):
    """Inputs outside the box are infeasible."""
    v = h.reals("v", n_in, -5, 5)
    s = h.reals("t", N, -40, 40)
    b = h.reals("bb", N, 0, 1)
    c = AND(mic_conds(h, r, list(v), list(s), list(b)))
    h.true(IMPLIES(c, AND([AND(p - 1e-6 <= q, q <= e + 1e-6) for p, q, e in
                           zip(h.elems(lo), v, h.elems(up))])),
           "inputs confined to the box")


def full(widths, seed, slope, bias=True, sym=(), method="IA", lo=None,
         up=None, deg=False, last=True, scale=1.):
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        net = mknet(widths, seed, slope, bias, scale=scale)
        lin = [l for l in net if isinstance(l, torch.nn.Linear)]
        for k in sym:
            if k == "w":
                lin[0].weight = torch.nn.Parameter(h.tensor(
                    "w", (widths[1], widths[0]), -1, 1))
            else:
                lin[k].bias = torch.nn.Parameter(h.tensor(
                    "b%d" % k, widths[k + 1], -1, 1))
        n, N = widths[0], sum(widths[1:-1])
        l, u = box(h, n) if lo is None else (tt(lo), tt(up))
        if deg:
            h.assume(h.elems(l)[0] == h.elems(u)[0])
        L0, U0 = h.elems(l).copy(), h.elems(u).copy()
        P0 = [pnp(p).copy() for p in net.parameters()]
        x = h.reals("x", n, -3, 3)
        h.assume([AND(a <= v, v <= c) for a, v, c in zip(L0, x, U0)])
        p = m.ReLUFreePattern(net, F64)
        r = p.output_constraint(l, u, getattr(mu.PropagateBoundsMethod,
                                              method))
        exact(h, net, r, x, N, l, u, n)
        outside(h, r, N, l, u, n)
        h.eq(h.elems(l), L0, "box unchanged")
        h.eq(h.elems(u), U0, "box unchanged")
        for a, b in zip(P0, net.parameters()):
            h.eq(a, pnp(b), "parameters unchanged")
        q, b, o = p.compute_relu_unit_outputs_and_activation(h.as_tensor(x))
        pre, z = state(net, x)
        h.true(tuple(q.shape) == (N, 1) and tuple(b.shape) == (N, 1),
               "shape of the state")
        h.eq(pnp(q).reshape(-1), z, "state: unit outputs")
        for v, e in zip(pnp(b).reshape(-1), pre):
            h.true(AND(IMPLIES(e > 0, v == 1), IMPLIES(e < 0, v == 0),
                       OR(v == 0, v == 1)), "state: activation")
        y = netfun(net, x)
        o = pnp(o).reshape(-1) if isinstance(o, torch.Tensor) else [o]
        h.eq(np.array(list(o), dtype=object), y, "state: output")
    return f


IA = [((1, 1, 1), 1, .1, {}), ((2, 2, 1), 2, 0, {}),
      ((1, 2, 2), 3, .25, dict(bias=False)), ((1, 2, 1, 1), 4, .1, {}),
      ((2, 2, 1), 5, -.25, {}), ((1, 2, 1), 6, 1.5, {}),
      ((1, 2, 2), 6, 0, dict(sym=(0, 1))), ((1, 2, 1), 7, .1,
                                            dict(sym=("w", 0))),
      ((2, 1, 1), 8, .1, dict(deg=True)), ((1, 1, 2, 1), 9, 0, {})]
for w, s, c, kw in IA:
    R.put(full(w, s, c, **kw), "ia_%s_%g%s" % (
        "x".join(map(str, w)), c, "".join("_" + k for k in kw)),
        "box, input, slacks, binaries%s symbolic" % (
            ", some parameters" if kw.get("sym") else ""))
R.put(full((2, 2, 2, 1), 10, .1), "ia_2x2x2x1", "box, input symbolic",
      tier="thorough")
R.put(full((2, 3, 1), 11, 0), "ia_2x3x1", "box, input symbolic",
      tier="thorough")
R.put(full((1, 1, 1, 1, 1), 12, .1), "ia_1x1x1x1x1", "box, input symbolic")
BOX = [((1, 2, 1), 1, .1, [-1.], [.5], {}),
       ((2, 2, 2), 2, 0, [-1., -.5], [1., .75], {}),
       ((2, 2, 2, 1), 3, .1, [-1., -.5], [1., .75], {}),
       ((2, 2, 1), 4, .25, [.5, -1], [.5, 2], dict(bias=False)),
       ((1, 2, 2, 1), 12, .1, [-2.], [1.], dict(scale=4.)),
       ((2, 3, 2, 1), 14, 0, [-1., -2], [2., 1.], {})]
for k, (w, s, c, lo, up, kw) in enumerate(BOX):
    for mth in ("IA", "LP", "MIP", "IA_MIP"):
        R.put(full(w, s, c, method=mth, lo=lo, up=up, **kw), "%s_%s_%d" % (
            mth, "x".join(map(str, w)), k),
            "fixed box; input, slacks, binaries symbolic",
            tier="quick" if (k < 5 and mth != "LP") or k == 3 else "thorough")


def given(widths, seed, slope):
    """Any valid bounds of the units' inputs may be supplied."""
    def f(h):
        m = loader.module("relu_to_optimization")
        net = mknet(widths, seed, slope)
        n, N = widths[0], sum(widths[1:-1])
        l, u = tt(-np.ones(n)), tt(np.ones(n))
        x = h.reals("x", n, -1, 1)
        a, b = h.tensor("a", N, -3, 3), h.tensor("b", N, -3, 3)
        pre, z = state(net, x)
        h.assume([AND(p <= v, v <= q) for p, v, q in zip(
            h.elems(a), pre, h.elems(b))])
        p = m.ReLUFreePattern(net, F64)
        r = p._output_constraint_given_bounds(a, b, l, u)
        exact(h, net, r, x, N, l, u, n)
    return f


R.put(given((1, 2, 1), 20, .1), "given_bounds_1x2x1",
      "bounds, input, slacks, binaries symbolic")
R.put(given((2, 1, 1, 1), 21, 0), "given_bounds_2x1x1x1",
      "bounds, input, slacks, binaries symbolic")


def program_layer(slope, seed, bias, relax):
    """One layer added to a program."""
    def f(h):
        m = loader.module("relu_to_optimization_utils")
        g = loader.module("gurobi_torch_mip")
        net = mknet((2, 2, 1), seed, slope, bias)
        lo, up = h.tensor("lo", 2, -3, 3), h.tensor("up", 2, -3, 3)
        x = h.reals("x", 2, -2, 2)
        pre, z = state(net, x)
        h.assume([AND(p <= v, v <= q) for p, v, q in zip(
            h.elems(lo), pre, h.elems(up))])
        prog = g.GurobiTorchMILP(F64)
        xv = prog.addVars(2, lb=-10.)
        zv, bv = m._add_constraint_to_program_by_layer(
            prog, net[0], net[1], xv, lo, up,
            g.BINARYRELAX if relax else "B")
        fix = dict(zip(xv, x))
        fz = dict(fix)
        fz.update(zip(zv, z))
        if relax:
            h.assume([OR(p > 0, p < 0) for p in pre])
            fz.update((v, where(p > 0, 1., 0.)) for v, p in zip(bv, pre))
        h.exists(prog.gurobi_model, fz, "layer output feasible")
        if not relax:
            val = h.assign(prog.gurobi_model, fix)
            h.eq([val[v] for v in zv], z, "layer output forced")
        else:
            h.true(all(v.vtype == "C" for v in bv), "relaxed")
        h.cover("layer")
    return f


for c, s, b in ((.1, 3, True), (0, 4, False), (.5, 5, True)):
    R.put(program_layer(c, s, b, False), "layer_%g" % c,
          "bounds, input, completion symbolic")
R.put(program_layer(.1, 3, True, True), "layer_relaxed",
      "bounds, input, completion symbolic")


def layer(slope, seed, bias):
    def f(h):
        m = loader.module("relu_to_optimization_utils")
        net = mknet((2, 2, 1), seed, slope, bias)
        lo, up = h.tensor("lo", 2, -3, 3), h.tensor("up", 2, -3, 3)
        x = h.reals("x", 2, -2, 2)
        pre, z = state(net, x)
        h.assume([AND(p <= v, v <= q) for p, v, q in zip(
            h.elems(lo), pre, h.elems(up))])
        A, B, C, d, E, F, G, e, zl, zu = m._add_constraint_by_layer(
            net[0], net[1], lo, up)
        s = h.reals("s", 2, -9, 9)

        def conds(sl, be):
            out = []
            for M, r, eq in (((A, B, C), d, 0), ((E, F, G), e, 1)):
                r = pnp(r).reshape(-1)
                if not len(r):
                    continue
                v = pnp(M[0]).dot(x) + pnp(M[1]).dot(
                    np.array(sl, dtype=object)) + pnp(M[2]).dot(
                    np.array(be, dtype=object)) - r
                out += [(eqz if eq else leq)(h, q) for q in v]
            return AND(out)
        h.true(OR([conds(z, b) for b in patterns(2)]), "feasible")
        for b in patterns(2):
            h.true(IMPLIES(conds(s, b), AND([near(p, q, 1e-5) for p, q in
                                             zip(s, z)])), "forced")
        h.le(pnp(zl), z, "output bound")
        h.le(z, pnp(zu), "output bound")
        h.cover("layer")
    return f


for c, s, b in ((.1, 13, True), (0, 14, False), (1.5, 15, True),
                (-.5, 16, True)):
    R.put(layer(c, s, b), "rows_%g" % c, "bounds, input, completion symbolic")


def output(method):
    def ask(h, p, lo, up):
        mu = loader.module("mip_utils")
        return p.output_constraint(lo, up, getattr(
            mu.PropagateBoundsMethod, method))
    return ask


for k, w, s, c, mth, how in ((0, (1, 2, 1), 3, .1, "IA", "data"),
                             (1, (2, 2, 2), 4, 0, "IA", "copy"),
                             (2, (2, 2, 1), 5, .1, "LP", "data"),
                             (3, (2, 2, 2, 1), 6, .1, "MIP", "copy"),
                             (4, (2, 2, 2, 1), 7, 0, "IA_MIP", "data")):
    R.put(pattern_past(w, s, c, output(mth), k == 0, how),
          "history_%d_%s" % (k, mth), "box symbolic for IA 0")


def deep(widths, seed, slope, lo, up, method="IA", bias=True):
    """Larger networks; one query over every pattern of the binaries."""
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        net = mknet(widths, seed, slope, bias, scale=.5)
        n, N = widths[0], sum(widths[1:-1])
        x = h.reals("x", n, -3, 3)
        h.assume([AND(a <= v, v <= c) for a, v, c in zip(lo, x, up)])
        r = m.ReLUFreePattern(net, F64).output_constraint(
            tt(lo), tt(up), getattr(mu.PropagateBoundsMethod, method))
        pre, z = state(net, x)
        y = netfun(net, x)
        which = h.choice("which", 2)
        if which == 0:
            h.assume([v != 0 for v in pre])
            b = [where(v > 0, 1., 0.) for v in pre]
            for c in mic_conds(h, r, list(x), list(z), b):
                h.true(c, "feasible at the network's state")
            o = mic_out(h, r, list(x), list(z), b)
            for p, q in zip(o, y):
                h.true(near(p, q, 1e-6), "output at the network's state")
            for v, p, q in zip(z, pnp(r.relu_output_lo), pnp(
                    r.relu_output_up)):
                h.true(AND(v >= p - 1e-6, v <= q + 1e-6), "range of units")
        else:
            s = h.reals("s", N, -40, 40)
            b = [h.binary("b%d" % i) for i in range(N)]
            h.assume(AND(mic_conds(h, r, list(x), list(s), b)))
            o = mic_out(h, r, list(x), list(s), b)
            h.true(len(o) == len(y), "outputs")
            for p, q in zip(s, z):
                h.true(near(p, q, 1e-5), "unit outputs of every completion")
            for p, q in zip(o, y):
                h.true(near(p, q, 1e-5), "output of every completion")
        h.cover("deep")
    return f


for w, s, c, lo, up, mth in (
        ((3, 4, 3, 2), 41, .1, [-.5, -1., 0.], [1., .5, .75], "IA"),
        ((2, 2, 2, 2, 2, 1), 42, 0, [-1., -.5], [1., .75], "IA"),
        ((4, 3, 3), 43, .25, [-1.] * 4, [1.] * 4, "IA"),
        ((1, 6, 1), 44, .1, [-1.], [1.5], "LP"),
        ((2, 5, 4, 1), 45, 0, [-1., -1.], [1., 1.], "IA"),
        ((2, 3, 2, 3), 46, .1, [-1., -1.], [1., 1.], "MIP")):
    R.put(deep(w, s, c, lo, up, mth), "deep_%s_%s" % (
        mth, "x".join(map(str, w))), "fixed box; input, slacks, binaries "
        "symbolic")
for w, s, c, lo, up, mth in (
        ((3, 8, 8, 2), 47, .1, [-.5, -1., 0.], [1., .5, .75], "IA"),
        ((2, 5, 5, 5, 1), 48, 0, [-1., -.5], [1., .75], "IA"),
        ((6, 10, 2), 49, .01, [-.5] * 6, [.5] * 6, "IA")):
    R.put(deep(w, s, c, lo, up, mth), "deep_%s_%s" % (
        mth, "x".join(map(str, w))), "fixed box; input, slacks, binaries "
        "symbolic", tier="thorough")
