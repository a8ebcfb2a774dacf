"""Cuts for the relaxation of a ReLU unit keep every integer point."""
import itertools
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, mknet, preacts, netfun, pnp,
                      where, vmax, vmin, tt, rnd, leq, patterns, mic_conds, F64)

HARNESSES = R = Registry()
BOUNDS = ("Units with 1-3 inputs; weights, offset, box, input symbolic in "
          "[-2,2] (fixed weights for three inputs); slopes 0, 0.1, 0.5; every "
          "index set; networks of up to two hidden layers with symbolic "
          "relaxation points.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the relaxation solver returns any feasible point"]


def unit(h, n, symw=True, seed=0):
    lo = h.tensor("lo", n, -2, 2)
    up = h.tensor("up", n, -2, 2)
    h.assume([p <= q for p, q in zip(h.elems(lo), h.elems(up))])
    w = h.tensor("w", n, -2, 2) if symw else tt(rnd(seed, n, -2, 2))
    b = h.tensor("b", 1, -2, 2)[0]
    return w, b, lo, up


def point(h, lo, up, name="x"):
    L, U = h.elems(lo), h.elems(up)
    x = h.reals(name, len(L), -2, 2)
    h.assume([AND(a <= v, v <= c) for a, v, c in zip(L, x, U)])
    return x


def out(c, w, b, x):
    s = pnp(w).dot(x) + b
    return s, where(s >= 0, s, c * s)


def lbar(w, lo, up):
    return [where(a >= 0, l, u) for a, l, u in zip(w, lo, up)]


def ubar(w, lo, up):
    return [where(a >= 0, u, l) for a, l, u in zip(w, lo, up)]


def cut_ref(c, w, b, lo, up, idx, x, be):
    """y <= b c + b (1-c) be + sum_I (w x - (1-c)(1-be) w L) + sum_notI
    (c w x + (1-c) be w U)"""
    W = pnp(w)
    L, U = lbar(W, lo, up), ubar(W, lo, up)
    r = b * c + b * (1 - c) * be
    for i in range(len(W)):
        if i in idx:
            r = r + W[i] * x[i] - (1 - c) * (1 - be) * W[i] * L[i]
        else:
            r = r + c * W[i] * x[i] + (1 - c) * be * W[i] * U[i]
    return r


def holds(h, c, w, b, x, a, k, d, msg):
    """The cut y <= a x + k be + d holds at integer points."""
    s, y = out(c, w, b, x)
    v = pnp(a).dot(x) + d
    h.true(IMPLIES(s >= 0, y <= v + k + 1e-7), msg + ": unit on")
    h.true(IMPLIES(s <= 0, y <= v + 1e-7), msg + ": unit off")


def indices(c, n, symw=True):
    def f(h):
        u = loader.module("mip_utils")
        w, b, lo, up = unit(h, n, symw, n)
        x = point(h, lo, up)
        be = h.real("beta", 0, 1)
        B = h.scalar(b)
        L, U = h.elems(lo).copy(), h.elems(up).copy()
        for k in range(n + 1):
            for idx in itertools.combinations(range(n), k):
                a, q, d = u.strengthen_relu_mip_w_indices(
                    c, w, b, lo, up, set(idx))
                h.true(tuple(a.shape) == (n, ), "shape")
                q, d = h.scalar(q), h.scalar(d)
                holds(h, c, w, B, x, a, q, d, "indices %s" % (idx, ))
                h.eq(pnp(a).dot(x) + q * be + d,
                     cut_ref(c, w, B, L, U, idx, x, be), "formula")
        h.eq(h.scalar(b), B, "offset unchanged")
        h.cover("cuts")
        s, _ = out(c, w, B, x)
        h.cover("unit on", s > 0)
        h.cover("unit off", s < 0)
    return f


for c in (0., .1, .5):
    for n in (1, 2):
        R.put(indices(c, n), "indices_%d_%g" % (n, c),
              "weights, offset, box, input symbolic; all index sets")
R.put(indices(.1, 3, False), "indices_3_0.1",
      "offset, box, input symbolic; all index sets")


def index_set(n, symw):
    """The chosen set gives the smallest cut at the point."""
    def f(h):
        u = loader.module("mip_utils")
        c = .25
        w, b, lo, up = unit(h, n, symw, 40 + n)
        xh = point(h, lo, up, "xh")
        be = h.real("beta", 0, 1)
        t = u.find_index_set_to_strengthen(
            w, lo, up, h.as_tensor(xh), h.as_tensor(np.array([be]))[0])
        h.true(isinstance(t, set) and t <= set(range(n)), "a set of inputs")
        B = h.scalar(b)
        L, U = h.elems(lo), h.elems(up)
        v = cut_ref(c, w, B, L, U, t, xh, be)
        for i in range(n):
            h.true(v <= cut_ref(c, w, B, L, U, t ^ {i}, xh, be) + 1e-7,
                   "no other set is tighter")
        h.cover("set")
        h.cover("empty", len(t) == 0)
        h.cover("all", len(t) == n)
    return f


R.put(index_set(1, True), "index_set_1",
      "weights, offset, box, point symbolic")
R.put(index_set(2, True), "index_set_2",
      "weights, offset, box, point symbolic")
R.put(index_set(3, False), "index_set_3", "offset, box, point symbolic")


def given(n, symw, pts):
    def f(h):
        u = loader.module("mip_utils")
        c = .1
        w, b, lo, up = unit(h, n, symw, 50 + n)
        x = point(h, lo, up)
        xs, ys, bs = [], [], []
        for k in range(pts):
            xs.append(point(h, lo, up, "p%d" % k))
            ys.append(h.real("y%d" % k, -6, 6))
            bs.append(h.real("b%d" % k, 0, 1))
        A, q, d = u.strengthen_relu_mip_given_pts(
            c, w, b, lo, up, [h.as_tensor(v) for v in xs],
            [h.as_tensor(np.array([v]))[0] for v in ys],
            [h.as_tensor(np.array([v]))[0] for v in bs])
        B = h.scalar(b)
        L, U = h.elems(lo), h.elems(up)
        m = 0 if A is None else A.shape[0]
        if A is None:
            h.true(q is None and d is None, "nothing added")
        else:
            h.true(tuple(A.shape) == (m, n) and tuple(q.shape) == (m, ) and
                   tuple(d.shape) == (m, ), "shapes")
            A, q, d = h.elems(A), h.elems(q), h.elems(d)
            for i in range(m):
                s, y = out(c, w, B, x)
                v = A[i].dot(x) + d[i]
                h.true(IMPLIES(s >= 0, y <= v + q[i] + 1e-7), "unit on")
                h.true(IMPLIES(s <= 0, y <= v + 1e-7), "unit off")
        # every point above its tightest cut is cut off
        for k in range(pts):
            best = vmin(*[cut_ref(c, w, B, L, U, t, xs[k], bs[k])
                          for j in range(n + 1)
                          for t in itertools.combinations(range(n), j)])
            cut = OR([ys[k] > A[i].dot(xs[k]) + q[i] * bs[k] + d[i]
                      for i in range(m)])
            h.true(IMPLIES(ys[k] > best + 1e-6, cut), "violating point cut")
        h.true(m <= pts, "at most one cut for each point")
        h.cover("points")
        h.cover("cut", m > 0)
        h.cover("none", m == 0)
    return f


R.put(given(1, True, 1), "given_1", "weights, offset, box, points symbolic")
R.put(given(2, False, 1), "given_2", "offset, box, points symbolic")
R.put(given(1, False, 2), "given_1_two_points",
      "offset, box, points symbolic")
R.put(given(2, False, 2), "given_2_two_points",
      "offset, box, points symbolic", tier="thorough")


def whole(n, symw, selective, ia, symbox=True, c=.1, seed=None):
    """All cuts of a unit, its input range from the box or tighter."""
    def f(h):
        u = loader.module("mip_utils")
        if symbox:
            w, b, lo, up = unit(h, n, symw, seed or 60 + n)
        else:
            w = tt(rnd(seed or 60 + n, n, -2, 2))
            b = h.tensor("b", 1, -2, 2)[0]
            lo, up = tt(rnd(7 + n, n, -2, 0)), tt(rnd(8 + n, n, .125, 2))
        x = point(h, lo, up)
        B = h.scalar(b)
        L, U = u.compute_range_by_IA(w.reshape((1, -1)), b.reshape((1, )), lo,
                                     up)
        L, U = L[0], U[0]
        if not ia:
            t = h.tensor("tight", 2, 0, 1)
            L, U = L + t[0], U - t[1]
        h.assume(AND(h.scalar(L) < 0, h.scalar(U) > 0))
        s, y = out(c, w, B, x)
        h.assume(AND(s >= h.scalar(L), s <= h.scalar(U)))
        A, q, d = u.strengthen_relu_mip(c, w, b, lo, up, L, U, selective)
        m = A.shape[0]
        h.true(tuple(A.shape) == (m, n) and tuple(q.shape) == (m, ) and
               tuple(d.shape) == (m, ), "shapes")
        if not selective:
            h.true(m == 2**n - 2, "every proper index set")
        A, q, d = h.elems(A), h.elems(q), h.elems(d)
        for i in range(m):
            v = A[i].dot(x) + d[i] if n else d[i]
            h.true(IMPLIES(s >= 0, y <= v + q[i] + 1e-7), "unit on")
            h.true(IMPLIES(s <= 0, y <= v + 1e-7), "unit off")
        if not selective:
            be = h.real("beta", 0, 1)
            refs = [cut_ref(c, w, B, h.elems(lo), h.elems(up), t, x, be)
                    for j in range(1, n)
                    for t in itertools.combinations(range(n), j)]
            vals = [A[i].dot(x) + q[i] * be + d[i] for i in range(m)]
            if m:
                h.eq(vmin(*vals), vmin(*refs), "all cuts together")
        h.cover("cuts")
    return f


R.put(whole(1, True, False, True), "all_cuts_1",
      "weights, offset, box, input symbolic")
R.put(whole(2, True, False, True), "all_cuts_2",
      "weights, offset, box, input symbolic")
R.put(whole(3, False, False, True), "all_cuts_3",
      "offset, box, input symbolic")
R.put(whole(1, False, True, True), "selected_cuts_1",
      "offset, box, input symbolic")
R.put(whole(2, False, True, True, False), "selected_cuts_2",
      "offset, input symbolic")
R.put(whole(2, False, True, False, False), "selected_cuts_2_tight",
      "offset, input, tighter range symbolic")
R.put(whole(2, False, True, True, True), "selected_cuts_2_box",
      "offset, box, input symbolic", tier="thorough")
R.put(whole(3, False, True, True, False, 0., 77), "selected_cuts_3",
      "offset, input symbolic", tier="thorough")
R.put(whole(2, False, True, True, False, 0., 78), "selected_cuts_2_relu",
      "offset, input symbolic")


def vertices(tight):
    def f(h):
        u = loader.module("mip_utils")
        w = tt([1., -.5])
        b = h.tensor("b", 1, -1, 1)[0]
        lo, up = h.tensor("lo", 2, -1, 0), h.tensor("up", 2, 0, 1)
        L, U = u.compute_range_by_IA(w.reshape((1, -1)), b.reshape((1, )), lo,
                                     up)
        L, U = L[0], U[0]
        if tight:
            t = h.tensor("tight", 2, 0, 1)
            L, U = L + t[0], U - t[1]
        vs = u._get_linear_input_vertices(lo, up, w, b, L, U)
        got = [h.elems(v) for v in vs]
        E = [np.array(v, dtype=object) for v in itertools.product(
            *zip(h.elems(lo), h.elems(up)))]
        for e in E:
            s = pnp(w).dot(e) + h.scalar(b)
            ok = AND(s >= h.scalar(L), s <= h.scalar(U))
            h.true(IMPLIES(ok, OR([AND([near(p, q) for p, q in zip(g, e)])
                                   for g in got])), "vertex listed")
        for g in got:
            s = pnp(w).dot(g) + h.scalar(b)
            h.true(AND(s >= h.scalar(L) - 1e-7, s <= h.scalar(U) + 1e-7),
                   "vertex in range")
            h.true(OR([AND([near(p, q) for p, q in zip(g, e)])
                       for e in E]), "a vertex of the box")
        h.cover("vertices")
    return f


R.put(vertices(False), "vertices", "offset, box symbolic")
R.put(vertices(True), "vertices_tight", "offset, box, range symbolic")


def beta_range(h):
    u = loader.module("mip_utils")
    c, w = .25, tt([1., -.5])
    b = h.tensor("b", 1, -1, 1)[0]
    xh = h.tensor("x", 2, -1, 1)
    A = [tt([.5, 0]), tt([1., -.25])]
    k = [h.tensor("k%d" % i, 1, -2, 2)[0] for i in range(2)]
    d = [h.tensor("d%d" % i, 1, -2, 2)[0] for i in range(2)]
    lo, up = u._compute_beta_range(c, w, b, A, k, d, xh)
    lo, up = h.scalar(lo), h.scalar(up)
    be = h.real("beta", -1, 2)
    s, y = out(c, w, h.scalar(b), h.elems(xh))
    K = [h.scalar(v) for v in k]
    h.assume([OR(v >= .01, v <= -.01) for v in K])
    ok = AND([y <= pnp(a).dot(h.elems(xh)) + v * be + h.scalar(e)
              for a, v, e in zip(A, K, d)] + [be >= 0, be <= 1])
    h.true(IMPLIES(ok, AND(lo <= be + 1e-6, be <= up + 1e-6)), "range")
    h.true(IMPLIES(AND(be >= lo, be <= up), AND(
        [y <= pnp(a).dot(h.elems(xh)) + v * be + h.scalar(e) + 1e-6
         for a, v, e in zip(A, K, d)] + [be >= -1e-7, be <= 1 + 1e-7])),
        "all of the range is feasible")
    h.cover("range")


R.put(beta_range, "beta_range", "offset, input, rows symbolic")


def max_y(h):
    """Largest output of the relaxation at an input."""
    u = loader.module("mip_utils")
    c = .25
    w, b, xh = tt([1., -.5]), torch.tensor(.25, dtype=F64), tt([.5, -.75])
    A = [c * w, w, tt([.5, -.1])]
    k = [torch.tensor(v, dtype=F64) for v in (1.5, -.75, .2)]
    d = [torch.tensor(v, dtype=F64) for v in (.0625, 1., .9)]
    y, be = h.real("y", -4, 4), h.real("beta", 0, 1)
    X = pnp(xh)
    s, lowy = out(c, w, .25, X)
    h.assume([lowy <= y] + [y <= pnp(a).dot(X) + float(v) * be + float(e)
                            for a, v, e in zip(A, k, d)])
    m, bv = u._max_y_given_linear_input(c, w, b, A, k, d, xh)
    m, bv = float(m), float(bv)
    h.le(y, m, "largest")
    h.true(0 <= bv <= 1, "binary range")
    h.true(bool(lowy <= m + 1e-7) and all(
        m <= float(pnp(a).dot(X)) + float(v) * bv + float(e) + 1e-6
        for a, v, e in zip(A, k, d)), "attained")
    h.cover("max")


R.put(max_y, "max_output", "output, binary symbolic")


# ---- whole networks
def state(net, x):
    """slack, binary of the network at an input (ties on)."""
    pre = [p for v in preacts(net, x) for p in v]
    z, k = [], 0
    acts = [l for l in net if not isinstance(l, torch.nn.Linear)]
    for a, v in zip(acts, preacts(net, x)):
        z += list(netfun([a], v))
    return pre, z


def at_point(widths, seed, slope, bias):
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        g = loader.module("gurobi_torch_mip")
        net = mknet(widths, seed, slope, bias)
        n, N = widths[0], sum(widths[1:-1])
        lo = tt(-np.ones(n))
        up = tt(np.ones(n) * .75)
        p = m.ReLUFreePattern(net, F64)
        r = p.output_constraint(lo, up, mu.PropagateBoundsMethod.IA)
        zl = torch.cat((r.nn_input_lo, r.relu_output_lo))
        zu = torch.cat((r.nn_input_up, r.relu_output_up))
        # any point of the relaxation
        pt = h.reals("pt", n + N, -9, 9)
        bt = h.reals("bt", N, 0, 1)
        h.assume(AND(mic_conds(h, r, list(pt[:n]), list(pt[n:]), list(bt))))
        x = point(h, lo, up)
        pre, z = state(net, x)
        a = p.strengthen_mip_at_point((h.as_tensor(pt), h.as_tensor(bt)), zl,
                                      zu)
        if a[0] is None:
            h.true(all(v is None for v in a), "nothing added")
            h.cover("no cut")
        else:
            A, S, B, rhs = a
            k = A.shape[0]
            h.true(tuple(A.shape) == (k, n) and tuple(S.shape) == (k, N) and
                   tuple(B.shape) == (k, N) and tuple(rhs.shape) == (k, ),
                   "shapes")
            A, S, B, rhs = [h.elems(v) for v in a]
            for i in range(k):
                base = A[i].dot(x) + S[i].dot(np.array(z, dtype=object))
                # binary of every unit with non-zero pre-activation is known
                e = base
                for j in range(N):
                    e = e + B[i][j] * where(pre[j] >= 0, 1., 0.)
                h.le(e, rhs[i], "network state kept")
                e = base
                for j in range(N):
                    e = e + B[i][j] * where(pre[j] > 0, 1., 0.)
                h.le(e, rhs[i], "network state kept (ties off)")
                v = A[i].dot(pt[:n]) + S[i].dot(pt[n:]) + B[i].dot(bt)
                h.true(v > rhs[i], "the point is cut off")
            h.cover("cut")
        if a[0] is None or True:
            # a point that violates the tightest envelope of some unit is cut
            k, prev = 0, (pt[:n], h.elems(lo), h.elems(up))
            i0 = n
            lin = [l for l in net if isinstance(l, torch.nn.Linear)]
            viol = []
            for li, l in enumerate(lin[:-1]):
                W = pnp(l.weight)
                bb = pnp(l.bias) if l.bias is not None else np.zeros(
                    len(W))
                ws = len(W)
                for j in range(ws):
                    best = vmin(*[cut_ref(
                        float(slope or 0), tt(W[j].astype(float)), bb[j],
                        prev[1], prev[2], t, prev[0], bt[k + j])
                        for q in range(len(W[j]) + 1)
                        for t in itertools.combinations(range(len(W[j])), q)])
                    viol.append(pt[n + k + j] > best + 1e-6)
                sl = slice(n + k, n + k + ws)
                prev = (pt[sl], h.elems(zl)[sl], h.elems(zu)[sl])
                k += ws
            if a[0] is None:
                h.true(AND([v == False if isinstance(v, bool)  # noqa
                            else ~v if not isinstance(v, (bool, np.bool_))
                            else not v for v in viol]),
                       "no violated envelope is missed")
        h.cover("point")
    return f


R.put(at_point((1, 2, 1), 3, .1, True), "at_point_1x2x1",
      "relaxation point, input symbolic")
R.put(at_point((2, 2, 1), 4, 0, False), "at_point_2x2x1",
      "relaxation point, input symbolic")
R.put(at_point((1, 2, 1, 1), 7, .1, True), "at_point_1x2x1x1",
      "relaxation point, input symbolic")
R.put(at_point((2, 2, 2, 1), 7, .1, True), "at_point_2x2x2x1",
      "relaxation point, input symbolic", tier="thorough")


def loose(net, slope, r, q, n, N):
    """Largest violation of an envelope of some unit at a point."""
    zl = torch.cat((r.nn_input_lo, r.relu_output_lo))
    zu = torch.cat((r.nn_input_up, r.relu_output_up))
    f = lambda t: np.array([float(v) for v in pnp(t)])  # noqa
    zl, zu, z, b = f(zl), f(zu), np.array(q[:n + N]), q[n + N:]
    i, k, worst = 0, 0, -np.inf
    for l in [v for v in net if isinstance(v, torch.nn.Linear)][:-1]:
        m = l.in_features
        for j in range(l.out_features):
            w = np.array([float(v) for v in pnp(l.weight)[j]])
            best = min(float(cut_ref(
                float(slope or 0), tt(w), float(pnp(l.bias)[j]),
                zl[i:i + m], zu[i:i + m], t, z[i:i + m], b[k + j]))
                for c in range(m + 1)
                for t in itertools.combinations(range(m), c))
            worst = max(worst, z[i + m + j] - best)
        i, k = i + m, k + l.out_features
    return worst


def at_solution(widths, seed, slope, rounds):
    """Rows added to a solved relaxation keep every state of the network."""
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        g = loader.module("gurobi_torch_mip")
        net = mknet(widths, seed, slope, True)
        n, N = widths[0], sum(widths[1:-1])
        lo, up = tt(-np.ones(n)), tt(np.ones(n) * .75)
        p = m.ReLUFreePattern(net, F64)
        r = p.output_constraint(lo, up, mu.PropagateBoundsMethod.IA)
        prog = g.GurobiTorchMILP(F64)
        xv = prog.addVars(n, lb=-9.)
        sv, bv = prog.add_mixed_integer_linear_constraints(
            r, xv, None, "s", "b", "i", "e", "",
            binary_var_type=g.BINARYRELAX)
        prog.setObjective([r.Aout_slack.squeeze(0)], [sv], r.Cout[0],
                          "max" if False else -1)
        x = point(h, lo, up)
        pre, z = state(net, x)
        added, prev = 0, None
        for k in range(rounds):
            prog.gurobi_model.optimize()
            v = float(prog.gurobi_model.ObjVal)
            if prev is not None:
                h.true(v <= prev + 1e-6, "relaxation not loosened")
            prev = v
            h.le(netfun(net, x)[0], v, "relaxation bounds the output")
            q = [float(w.x) for w in xv + sv + bv]
            N0 = len(prog.gurobi_model.getConstrs())
            p.strengthen_relu_mip_at_solution(prog, xv, sv, bv, r)
            if loose(net, slope, r, q, n, N) > 1e-4:
                added += 1
                h.true(len(prog.gurobi_model.getConstrs()) > N0,
                       "the solution is cut off")
        fx = dict(zip(xv, x))
        fx.update(zip(sv, z))
        on = dict(fx)
        on.update((b, where(e >= 0, 1., 0.)) for b, e in zip(bv, pre))
        h.exists(prog.gurobi_model, on, "network state kept")
        h.cover("solution")
        h.cover("loose relaxation", added > 0)
    return f


R.put(at_solution((2, 2, 1), 4, .1, 2), "at_solution_2x2x1", "input symbolic")
R.put(at_solution((2, 3, 1), 9, 0, 2), "at_solution_2x3x1", "input symbolic")
R.put(at_solution((2, 2, 2, 1), 7, .1, 3), "at_solution_2x2x2x1",
      "input symbolic")


def past(widths, seed, slope, sym, how):
    """Rows added for a point do not depend on the points before."""
    n, N = widths[0], sum(widths[1:-1])

    def mk(h):
        m = loader.module("relu_to_optimization")
        return m.ReLUFreePattern(mknet(widths, seed, slope), F64)

    def args(h):
        if sym:
            return h.tensor("pt", n + N, -1, 3), h.tensor("bt", N, 0, 1)
        return tt(np.full(n + N, .5)), tt(np.full(N, .25))

    def ask(h, p, pt, bt, u):
        mu = loader.module("mip_utils")
        lo, up = tt(-np.ones(n)), tt(np.ones(n) * u)
        r = p.output_constraint(lo, up, mu.PropagateBoundsMethod.IA)
        zl = torch.cat((r.nn_input_lo, r.relu_output_lo))
        zu = torch.cat((r.nn_input_up, r.relu_output_up))
        return p.strengthen_mip_at_point((pt, bt), zl, zu)
    return history(
        mk, lambda h, p, a: ask(h, p, tt(np.linspace(-.5, 2.5, n + N)),
                                tt(np.linspace(.25, .75, N)), 1.5),
        lambda h, p, a: ask(h, p, a[0], a[1], .75), lambda p: [p.model], how,
        args)


for i, a in enumerate((((1, 2, 1), 3, .1, True, "data"),
                       ((1, 1, 1, 1), 7, .1, True, "copy"),
                       ((2, 2, 2, 1), 7, 0, False, "data"))):
    R.put(past(*a), "history_%d" % i, "point symbolic" if a[3] else "fixed")
