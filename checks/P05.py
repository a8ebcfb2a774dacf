"""Encodings of the network gradient."""
import itertools
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.history import pattern_past
from symx.lib import (AND, OR, IMPLIES, IFF, NOT, near, mknet, preacts,
                      netfun, pnp, where, tt, rnd, leq, eqz, patterns,
                      mic_conds, mic_out, F64)

HARNESSES = R = Registry()
BOUNDS = ("Networks of up to three hidden layers and six hidden units with "
          "fixed or partly symbolic weights; every activation; vector, its "
          "bounds, slacks symbolic; up to four hidden layers and eight units "
          "with fixed bounds.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact"]


def linears(net):
    return [l for l in net if isinstance(l, torch.nn.Linear)]


def slope_of(net):
    return float(getattr(net[1], "negative_slope", 0.))


def chain(net, b, y):
    """z of the units, W z of every linear layer, final product."""
    c = slope_of(net)
    z, zs, wz, k = np.asarray(y, dtype=object), [], [], 0
    L = linears(net)
    for l in L[:-1]:
        v = pnp(l.weight).dot(z)
        wz.append(v)
        m = len(v)
        z = np.array([e * (c + (1 - c) * q) for e, q in zip(v, b[k:k + m])],
                     dtype=object)
        k += m
        zs.append(z)
    v = pnp(L[-1].weight).dot(z)
    wz.append(v)
    return zs, wz, v


def gradient(net, b):
    c, G, k = slope_of(net), None, 0
    L = linears(net)
    for i, l in enumerate(L):
        W = pnp(l.weight)
        G = W if G is None else W.dot(G)
        if i < len(L) - 1:
            m = len(W)
            d = np.array([c + (1 - c) * q for q in b[k:k + m]], dtype=object)
            k += m
            G = d[:, None] * G
    return G


def mk(h, widths, seed, slope, sym=False, bias=True):
    net = mknet(widths, seed, slope, bias)
    if sym:
        for k in sym:
            L = linears(net)[k]
            L.weight = torch.nn.Parameter(h.tensor(
                "w%d" % k, tuple(L.weight.shape), -1, 1))
    return net


def out_grad(widths, seed, sym=(), bias=True):
    def f(h):
        m = loader.module("relu_to_optimization")
        net = mk(h, widths, seed, 0, sym, bias)
        p = m.ReLUFreePattern(net, F64)
        n, N = widths[0], sum(widths[1:-1])
        paths = list(itertools.product(*[range(w) for w in widths[1:-1]]))
        idx = [p.compute_alpha_index(q) for q in paths]
        h.true(sorted(idx) == list(range(len(paths))),
               "paths numbered one to one")
        M, B1, B2, d = p.output_gradient()
        na = len(paths)
        h.true(tuple(M.shape) == (na, n) and B1.shape[1] == na and
               B2.shape[1] == N, "shapes")
        M, B1, B2, d = pnp(M), pnp(B1), pnp(B2), pnp(d).reshape(-1)
        a = h.reals("alpha", na, 0, 1)
        h.assume([OR(v == 0, v == 1) for v in a])
        x = h.reals("x", n, -3, 3)
        pre = [v for q in preacts(net, x) for v in q]
        for b in patterns(N):
            prod = [0] * na
            off = np.cumsum([0] + list(widths[1:-1]))
            for q, i in zip(paths, idx):
                prod[i] = int(all(b[off[k] + j] for k, j in enumerate(q)))
            for key, vec, want in (("product", prod, True),
                                   ("free", a, None)):
                v = B1.dot(np.array(vec, dtype=object)) + B2.dot(
                    np.array(b, dtype=object)) - d
                c = AND([leq(h, e) for e in v])
                if want:
                    h.true(c, "products feasible")
                    continue
                G = M.T.dot(np.array(a, dtype=object))
                h.true(IMPLIES(c, AND([near(e, q) for e, q in zip(
                    G, gradient(net, b)[0])])), "gradient of the activation")
                h.true(IMPLIES(c, AND([e == q for e, q in zip(a, prod)])),
                       "feasible only at the products")
        h.cover("gradient")
    return f


for w, s, y in (((1, 1, 1), 1, ()), ((2, 2, 1), 2, ()), ((2, 2, 2, 1), 3, ()),
                ((1, 1, 2, 1), 4, ()), ((2, 1, 3, 1), 5, ()),
                ((1, 2, 1, 2, 1), 6, ()), ((2, 2, 1), 7, (0, 1)),
                ((1, 1, 2, 1), 8, (1, ))):
    R.put(out_grad(w, s, y), "output_gradient_%s%s" % (
        "x".join(map(str, w)), "_weights" if y else ""),
        "path variables%s symbolic, every activation" % (
            ", some weights" if y else ""))
R.put(out_grad((2, 2, 1), 9, bias=False), "output_gradient_nobias",
      "path variables symbolic, every activation")
R.put(out_grad((1, 3, 3, 1), 10), "output_gradient_1x3x3x1",
      "path variables symbolic, every activation", tier="thorough")


def contains(h, lo, up, v, msg):
    lo, up = pnp(lo).reshape(-1), pnp(up).reshape(-1)
    h.true(len(lo) == len(v) and len(up) == len(v), msg + ": size")
    h.le(lo, v, msg + ": lower")
    h.le(v, up, msg + ": upper")


def product_rows(h, net, r, y, N):
    s = h.reals("s", N, -60, 60)
    for b in patterns(N):
        zs, wz, v = chain(net, b, y)
        z = [e for q in zs for e in q]
        bf = [float(e) for e in b]
        h.true(AND(mic_conds(h, r, list(y), z, bf)), "product feasible")
        h.eq(mic_out(h, r, list(y), z, bf), v, "value of the product")
        c = AND(mic_conds(h, r, list(y), list(s), bf))
        o = mic_out(h, r, list(y), list(s), bf)
        h.true(IMPLIES(c, AND([near(p, q, 1e-5) for p, q in zip(o, v)])),
               "value of every completion")
        h.eq(v, gradient(net, b).dot(np.asarray(y, dtype=object)),
             "product is the gradient times the vector")


def times_vector(widths, seed, slope, sym=(), fixed=None, bias=True):
    def f(h):
        m = loader.module("relu_to_optimization")
        net = mk(h, widths, seed, slope, sym, bias)
        n, N = widths[0], sum(widths[1:-1])
        if fixed:
            lo, up = tt(fixed[0]), tt(fixed[1])
        else:
            lo, up = h.tensor("lo", n, -2, 2), h.tensor("up", n, -2, 2)
            h.assume([p <= q for p, q in zip(h.elems(lo), h.elems(up))])
        L0, U0 = h.elems(lo).copy(), h.elems(up).copy()
        y = h.reals("y", n, -2, 2)
        h.assume([AND(p <= v, v <= q) for p, v, q in zip(L0, y, U0)])
        p = m.ReLUFreePattern(net, F64)
        r = p.output_gradient_times_vector(lo, up)
        h.true(r.Ain_slack.shape[1] == N and r.Ain_binary.shape[1] == N and
               r.Ain_input.shape[1] == n, "columns")
        product_rows(h, net, r, y, N)
        for b in patterns(N):
            zs, wz, v = chain(net, b, y)
            for i, q in enumerate(wz):
                contains(h, r.Wz_lo[i], r.Wz_up[i], q, "layer product")
            for i, q in enumerate([y] + zs):
                contains(h, r.z_lo[i], r.z_up[i], q, "unit product")
        h.eq(h.elems(lo), L0, "bounds unchanged")
        h.eq(h.elems(up), U0, "bounds unchanged")
        h.cover("product")
    return f


TV = [((1, 1, 1), 1, 0, {}), ((1, 1, 1), 2, .1, {}), ((2, 2, 1), 3, 0, {}),
      ((2, 2, 2), 4, .25, {}), ((1, 2, 1, 1), 5, .1, {}),
      ((1, 1, 1), 7, .1, dict(sym=(0, ))),
      ((2, 2, 1), 8, 0, dict(bias=False)), ((1, 2, 1), 12, .1,
                                            dict(sym=(0, )))]
for w, s, c, kw in TV:
    R.put(times_vector(w, s, c, **kw), "times_vector_%s_%g%s" % (
        "x".join(map(str, w)), c, "".join("_" + k for k in kw)),
        "vector, bounds, slacks symbolic, every activation")
R.put(times_vector((2, 2, 2, 1), 9, .1, fixed=([-1, -.5], [.5, 2])),
      "times_vector_2x2x2x1", "vector, slacks symbolic, every activation")
R.put(times_vector((2, 2, 1, 2, 1), 11, 0, fixed=([-1, -.5], [.5, 2])),
      "times_vector_2x2x1x2x1", "vector, slacks symbolic, every activation")
R.put(times_vector((2, 3, 2, 1), 10, .1, fixed=([-1, -.5], [.5, 2])),
      "times_vector_2x3x2x1", "vector, slacks symbolic, every activation",
      tier="thorough")


def by_bounds(h):
    """Bounds supplied from outside."""
    m = loader.module("relu_to_optimization")
    net = mknet((1, 2, 1, 1), 6, .1)
    p = m.ReLUFreePattern(net, F64)
    y = h.reals("y", 1, -1, 1)
    lo = [h.tensor("l%d" % i, k, -4, 4) for i, k in enumerate((2, 1))]
    up = [h.tensor("u%d" % i, k, -4, 4) for i, k in enumerate((2, 1))]
    for b in patterns(3):
        zs, wz, v = chain(net, b, y)
        for i in range(2):
            h.assume([AND(a <= q, q <= c) for a, q, c in zip(
                h.elems(lo[i]), wz[i], h.elems(up[i]))])
    r = p.output_gradient_times_vector_w_bounds(
        [tt([-1.]), None, None], [tt([1.]), None, None], lo + [None],
        up + [None])
    product_rows(h, net, r, y, 3)
    h.cover("bounds given")


R.put(by_bounds, "times_vector_given_bounds",
      "vector, bounds, slacks symbolic, every activation")


def bounds_opt(widths, seed, slope, extra):
    """Bounds by optimisation, with extra rows on vector and binaries."""
    def f(h):
        m = loader.module("relu_to_optimization")
        import gurobipy as G
        net = mknet(widths, seed, slope)
        n, N = widths[0], sum(widths[1:-1])
        p = m.ReLUFreePattern(net, F64)
        lo, up = -np.ones(n), np.ones(n) * .75
        prog = G.Model()
        z0 = [prog.addVar(lb=lo[i], ub=up[i]) for i in range(n)]
        be = [prog.addVar(vtype="B") for i in range(N)]
        if extra:
            prog.addLConstr(G.LinExpr([1.] * n, z0), sense="<", rhs=.25)
            prog.addLConstr(G.LinExpr([1., 1.], be[:2]), sense="=", rhs=1.)
        zl, zu, wl, wu, z = p._compute_Wz_bounds_optimization(prog, z0, be)
        y = h.reals("y", n, -1, .75)
        if extra:
            h.assume(sum(y) <= .25)
        for b in patterns(N):
            if extra and b[0] + b[1] != 1:
                continue
            zs, wz, v = chain(net, b, y)
            for i, q in enumerate(wz):
                contains(h, wl[i], wu[i], q, "layer product")
            for i, q in enumerate([y] + zs):
                contains(h, zl[i], zu[i], q, "unit product")
            fix = dict(zip(z0, y))
            fix.update(zip(be, [float(e) for e in b]))
            h.exists(prog, fix, "program feasible")
            val = h.assign(prog, fix, tag="m" + "".join(map(str, b)))
            for i, q in enumerate(zs):
                h.eq([val[e] for e in z[i + 1]], q, "unit variables")
        r = p.output_gradient_times_vector_w_bounds(zl, zu, wl, wu)
        if not extra:
            product_rows(h, net, r, y, N)
        h.cover("bounds")
    return f


R.put(bounds_opt((1, 2, 1), 1, .1, False), "bounds_opt_1x2x1",
      "vector symbolic, every activation")
R.put(bounds_opt((2, 2, 1, 1), 2, 0, True), "bounds_opt_2x2x1x1_rows",
      "vector symbolic, every activation")
R.put(bounds_opt((2, 2, 2, 1), 3, .1, False), "bounds_opt_2x2x2x1",
      "vector symbolic, every activation")


def at_activation(widths, seed, slope):
    """Binary variables tied to the network's state at an input."""
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        u = loader.module("utils")
        net = mknet(widths, seed, slope)
        n, N = widths[0], sum(widths[1:-1])
        p = m.ReLUFreePattern(net, F64)
        lo, up = tt(-np.ones(n) * 2), tt(np.ones(n) * 2)
        x, y = h.reals("x", n, -2, 2), h.reals("y", n, -1, 1)
        pre = [v for q in preacts(net, x) for v in q]
        h.assume([OR(v > 1e-3, v < -1e-3) for v in pre])
        r = p.output_constraint(lo, up, mu.PropagateBoundsMethod.IA)
        t = p.output_gradient_times_vector(tt(-np.ones(n)), tt(np.ones(n)))
        s, q = h.reals("s", N, -40, 40), h.reals("q", N, -40, 40)
        g = u.relu_network_gradient(net, h.as_tensor(x))
        h.true(g.shape[0] == 1, "one gradient")
        want = pnp(g)[0].dot(np.asarray(y, dtype=object))
        for b in patterns(N):
            bf = [float(e) for e in b]
            c = AND(mic_conds(h, r, list(x), list(s), bf) +
                    mic_conds(h, t, list(y), list(q), bf))
            o = mic_out(h, t, list(y), list(q), bf)
            h.true(IMPLIES(c, AND([near(a, e, 1e-5) for a, e in zip(
                o, want)])), "gradient at the input times the vector")
        h.cover("activation")
    return f


R.put(at_activation((1, 2, 1), 4, .1), "at_input_1x2x1",
      "input, vector, slacks symbolic")
R.put(at_activation((2, 2, 1), 5, 0), "at_input_2x2x1",
      "input, vector, slacks symbolic")
R.put(at_activation((1, 2, 2, 1), 6, .1), "at_input_1x2x2x1",
      "input, vector, slacks symbolic", tier="thorough")


def products(ways):
    def ask(h, p, lo, up):
        if ways == "gradient":
            return p.output_gradient()
        return p.output_gradient_times_vector(lo, up)
    return ask


for k, w, s, c, mth, how in ((0, (1, 2, 1), 3, .1, "product", "data"),
                             (1, (2, 2, 2, 1), 4, 0, "product", "copy"),
                             (2, (2, 2, 2, 1), 6, .1, "product", "copy"),
                             (3, (2, 2, 2, 1), 7, 0, "gradient", "data")):
    R.put(pattern_past(w, s, c, products(mth), k == 0, how),
          "history_%d_%s" % (k, mth), "vector range symbolic for 0")


def deep(widths, seed, slope, lo, up, bias=True):
    """Larger networks; one query over every activation."""
    def f(h):
        m = loader.module("relu_to_optimization")
        net = mknet(widths, seed, slope, bias, scale=.5)
        c = slope_of(net)
        n, N = widths[0], sum(widths[1:-1])
        y = h.reals("y", n, -2, 2)
        h.assume([AND(p <= v, v <= q) for p, v, q in zip(lo, y, up)])
        r = m.ReLUFreePattern(net, F64).output_gradient_times_vector(
            tt(lo), tt(up))
        b = [h.binary("b%d" % i) for i in range(N)]
        z, zs, wz, k = np.asarray(y, dtype=object), [], [], 0
        for l in linears(net)[:-1]:
            v = pnp(l.weight).dot(z)
            wz.append(v)
            z = np.array([where(q == 1, e, c * e) for e, q in zip(
                v, b[k:])], dtype=object)
            k += len(v)
            zs.append(z)
        v = pnp(linears(net)[-1].weight).dot(z)
        wz.append(v)
        us = [e for q in zs for e in q]
        if h.choice("which", 2) == 0:
            for e in mic_conds(h, r, list(y), us, b):
                h.true(e, "product feasible")
            for p, q in zip(mic_out(h, r, list(y), us, b), v):
                h.true(near(p, q, 1e-6), "value of the product")
            for i, q in enumerate(wz):
                contains(h, r.Wz_lo[i] - 1e-6, r.Wz_up[i] + 1e-6, q,
                         "layer product")
            for i, q in enumerate([y] + zs):
                contains(h, r.z_lo[i] - 1e-6, r.z_up[i] + 1e-6, q,
                         "unit product")
        else:
            s = h.reals("s", N, -60, 60)
            h.assume(AND(mic_conds(h, r, list(y), list(s), b)))
            for p, q in zip(mic_out(h, r, list(y), list(s), b), v):
                h.true(near(p, q, 1e-5), "value of every completion")
        h.cover("deep")
    return f


for w, s, c, lo, up in (
        ((3, 4, 3, 2), 41, .1, [-.5, -1., 0.], [1., .5, .75]),
        ((2, 2, 2, 2, 2, 1), 42, 0, [-1., -.5], [1., .75]),
        ((4, 3, 3), 43, .25, [-1.] * 4, [1.] * 4),
        ((1, 6, 1), 44, .1, [-1.], [1.5]),
        ((2, 5, 3, 1), 45, 0, [.25, -1.], [1., -.5])):
    R.put(deep(w, s, c, lo, up), "deep_" + "x".join(map(str, w)),
          "vector, slacks, activation symbolic")
