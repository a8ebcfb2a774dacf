"""Simulation, fitting and polytope helpers."""
import itertools
import types

import numpy as np
import torch
from symx.driver import Registry
from symx import gurobi_stub as gs, loader
from symx.lib import AND, OR, NOT, near, where, F64
from symx.trainsys import Patched
from checks.P29 import Var, C, E

HARNESSES = R = Registry()
BOUNDS = ("Linear systems of dimension 1-3 over 0-3 steps; closed loops of 1-2 "
          "states and inputs with a one- or two-layer network; data sets of "
          "5 samples, batches of 1-4, 1-2 epochs; functions of degree two "
          "in 1-3 variables; polyhedra of 1-4 rows in dimension 1-2; linear "
          "programs of 1-2 variables. All numbers symbolic.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the linear-program solver reports infeasible exactly for "
               "infeasible programs and otherwise returns an optimal vertex",
               "the initial-value solver calls the right-hand side at "
               "arbitrary times and states",
               "Adam's update is covered by the line-search property; the "
               "optimiser here moves the parameters anywhere"]


# ------------------------------------------------------------ simulation
def stepping(n, steps):
    def f(h):
        u = loader.module("utils")
        A = h.tensor("A", (n, n), -1, 1)
        b = h.tensor("b", n, -1, 1)
        x = h.tensor("x", n, -1, 1)
        seen = []

        def step(v):
            seen.append(v)
            return A @ v + b
        p = u.step_system(types.SimpleNamespace(step_forward=step), x, steps)
        h.true(len(p) == steps + 1, "start and one state for each step")
        h.true(len(seen) == steps, "one call for each step")
        y, M, c = h.elems(x), h.elems(A), h.elems(b)
        for i in range(steps + 1):
            h.eq(h.elems(p[i]), y, "state %d" % i)
            if i < steps:
                y = M.dot(h.elems(p[i])) + c
        h.true(not any(q.requires_grad for q in p), "no gradient kept")
        h.cover("rollout")
    return f


for n, k in ((1, 0), (1, 3), (2, 1), (3, 2)):
    R.put(stepping(n, k), "step_%d_%d" % (n, k), "%d steps" % k)


def clamp_ok(h, got, raw, lo, up, msg):
    for g, r, a, b in zip(got, raw, lo, up):
        h.true(OR(AND(r <= a, near(g, a)), AND(r >= b, near(g, b)),
                  AND(a <= r, r <= b, near(g, r))), msg)


def closed_loop(nx, nu, deep):
    def f(h):
        u = loader.module("utils")
        if deep:
            net = torch.nn.Sequential(
                torch.nn.Linear(nx, 2, dtype=F64), torch.nn.LeakyReLU(.125),
                torch.nn.Linear(2, nu, dtype=F64))
        else:
            net = torch.nn.Sequential(torch.nn.Linear(nx, nu, dtype=F64))
        for i, p in enumerate(net.parameters()):
            p.data = h.tensor("w%d" % i, tuple(p.shape), -2, 2,
                              state=True)
        xe, ue = h.tensor("xe", nx, -1, 1), h.tensor("ue", nu, -1, 1)
        lo, up = h.tensor("lo", nu, -2, 2), h.tensor("up", nu, -2, 2)
        l, q = h.elems(lo), h.elems(up)
        h.assume([a <= b for a, b in zip(l, q)])
        x0 = h.reals("x0", nx, -1, 1)
        xs = h.reals("x", nx, -2, 2)
        t = h.real("t", 0, 9)
        calls, out = [], {}

        def dynamics(x, w):
            calls.append((x, w))
            out[len(calls)] = numpy_state(h, h.reals(
                "dx%d" % len(calls), nx, -2, 2))
            return out[len(calls)]
        plant = types.SimpleNamespace(dynamics=dynamics)
        want = {"val": object()}

        def solve_ivp(fun, span, y0, **k):
            want.update(k, span=span, y0=y0)
            want["got"] = fun(t, numpy_state(h, xs))
            want["at0"] = fun(span[0], numpy_state(h, xe_at))
            return want["val"]
        xe_at = h.elems(xe)
        save = u.scipy
        u.scipy = types.SimpleNamespace(integrate=types.SimpleNamespace(
            solve_ivp=solve_ivp))
        try:
            r = u.simulate_plant_with_controller(
                plant, net, (.5, .545), xe, ue, lo, up, x0)
        finally:
            u.scipy = save
        h.true(r is want["val"], "the solution is returned")
        h.true(want["span"] == (.5, .545), "time span")
        h.eq(np.asarray(want["y0"], dtype=object), x0, "initial state")
        h.true(np.allclose(np.asarray(want["t_eval"], dtype=float),
                           .5 + .01 * np.arange(5)), "times")
        h.true(set(want) <= {"val", "got", "at0", "span", "y0", "t_eval"},
               "solver options")

        def phi(x):
            P = [h.elems(p) for p in net.parameters()]
            z = P[0].dot(x) + P[1]
            if deep:
                z = np.array([where(v >= 0, v, .125 * v) for v in z],
                             dtype=object)
                z = P[2].dot(z) + P[3]
            return z
        h.true(len(calls) == 2, "dynamics evaluated once for each state")
        e = phi(xe_at)
        for (x, w), s in zip(calls, (xs, xe_at)):
            h.eq(np.asarray(x, dtype=object), s, "state of the plant")
            w = np.asarray(w, dtype=object)
            h.true(w.shape == (nu, ), "control shape")
            clamp_ok(h, w, phi(s) - e + h.elems(ue), l, q,
                     "saturated feedback control")
        h.eq(np.asarray(want["got"], dtype=object), out[1], "derivative")
        h.cover("saturated", calls[0][1][0] == q[0])
        h.cover("free", AND(calls[0][1][0] < q[0], calls[0][1][0] > l[0]))
    return f


def numpy_state(h, v):
    if not h.symbolic:
        return np.array([float(q) for q in v])
    from symx.npshim import SymArray
    return np.array(v, dtype=object).view(SymArray)


for nx, nu, d in ((1, 1, False), (2, 2, False), (1, 1, True)):
    R.put(closed_loop(nx, nu, d), "closed-loop_%d_%d_%d" % (nx, nu, d),
          "network weights, limits, state symbolic")


# --------------------------------------------------------------- fitting
def dataset(h, n, nx, ny):
    X = h.tensor("X", (n, nx), -2, 2)
    Y = h.tensor("Y", (n, ny), -2, 2)
    return X, Y, torch.utils.data.TensorDataset(X, Y)


def fit(nx, ny, n, batch, epochs, extra):
    def f(h):
        u = loader.module("utils")
        X, Y, ds = dataset(h, n, nx, ny)
        net = torch.nn.Sequential(torch.nn.Linear(nx, ny, dtype=F64))
        for i, p in enumerate(net.parameters()):
            p.data = h.tensor("w%d" % i, tuple(p.shape), -2, 2,
                              state=True)
        v = h.tensor("v", ny, -1, 1, state=True).requires_grad_(True)
        seen = []
        k = {"add": v} if extra else {}

        def output(model, s, **kw):
            h.true(model is net, "the model that is trained")
            h.true(list(kw) == list(k), "arguments of the output function")
            seen.append(h.elems(s).copy())
            r = model(s)
            return r * kw["add"] if extra else r
        with Patched(h) as made:
            u.train_approximator(
                ds, net, output, batch_size=batch, num_epochs=epochs, lr=.25,
                additional_variable=[v] if extra else None,
                output_fun_args=k, verbose=False)
        h.true(len(made) == 1 and made[0].lr == .25, "one optimiser")
        o = made[0]
        ps = list(net.parameters()) + ([v] if extra else [])
        h.true([id(q) for q in o.params] == [id(q) for q in ps],
               "the model's parameters and the additional ones are trained")
        nt = int(n * .8)
        per = -(-nt // batch)
        h.true(len(seen) == epochs * (per + 1), "batches and one test")
        h.true(len(o.log) == epochs * per, "one step per batch")
        allX = h.elems(X)
        for e in range(epochs):
            part = seen[e * (per + 1):(e + 1) * (per + 1)]
            h.true([len(q) for q in part] == [
                min(batch, nt - batch * i) for i in range(per)] + [n - nt],
                "sizes")
            h.eq(sum(q.sum() for q in part), allX.sum(), "each sample once")
            if e:
                h.eq(part[-1], seen[per], "the same samples held out")
            for i in range(per):
                s = e * per + i
                W = o.hist[id(ps[0])][s].reshape(ny, nx)
                b = o.hist[id(ps[1])][s]
                a = o.hist[id(v)][s] if extra else np.ones(ny)
                rows = part[i]
                T = np.array([h.elems(Y)[row_of(allX, r)] for r in rows])
                P = np.array([W.dot(r) + b for r in rows])
                D = 2 * (P * a - T) / (len(rows) * ny)
                g = o.log[s]
                h.eq(g[0].reshape(ny, nx), (D * a).T.dot(rows),
                     "gradient of the mean squared error of the batch")
                h.eq(g[1], (D * a).sum(axis=0), "gradient in the bias")
                if extra:
                    h.eq(g[2], (D * P).sum(axis=0),
                         "gradient in the additional variable")
        h.cover("trained")
    return f


def row_of(X, r):
    """Which row of X is r (rows are moved, not computed)."""
    for i, q in enumerate(X):
        if all(a is b or str(a) == str(b) for a, b in zip(q, r)):
            return i
    raise AssertionError("a batch row is no row of the data set")


for i, a in enumerate(((1, 1, 5, 2, 1, False), (1, 1, 5, 3, 2, True),
                       (2, 1, 5, 4, 1, False), (1, 2, 5, 1, 1, True))):
    R.put(fit(*a), "fit-%d" % i, "%d samples, batches of %d, %d epochs" %
          (a[2], a[3], a[4]))


def fit_model(batch, epochs):
    """train_model: squared error summed over the outputs, averaged over the
    nominal batch size."""
    def f(h):
        u = loader.module("utils")
        X, Y, _ = dataset(h, 4, 1, 1)
        net = torch.nn.Sequential(torch.nn.Linear(1, 1, dtype=F64))
        for i, p in enumerate(net.parameters()):
            p.data = h.tensor("w%d" % i, tuple(p.shape), -2, 2,
                              state=True)
        seen = []
        net.register_forward_pre_hook(
            lambda m, a: seen.append(h.elems(a[0]).copy()))
        with Patched(h) as made:
            r = u.train_model(net, X, Y, batch_size=batch, num_epoch=epochs,
                              learning_rate=.5)
        h.true(r is net, "the model is returned")
        o = made[0]
        h.true(len(made) == 1 and o.lr == .5 and [id(q) for q in o.params] ==
               [id(q) for q in net.parameters()], "the optimiser")
        per = -(-4 // batch)
        h.true(len(seen) == len(o.log) == per * epochs, "steps")
        ps = o.params
        for s, rows in enumerate(seen):
            W, b = o.hist[id(ps[0])][s][0], o.hist[id(ps[1])][s][0]
            d = [2 * (W * q[0] + b - h.elems(Y)[row_of(h.elems(X), q)][0])
                 for q in rows]
            h.eq(o.log[s][0][0], sum(
                a * q[0] for a, q in zip(d, rows)) / batch, "gradient")
            h.eq(o.log[s][1][0], sum(d) / batch, "gradient in the bias")
        for e in range(epochs):
            h.eq(sum(q.sum() for q in seen[e * per:e * per + per]),
                 h.elems(X).sum(), "each sample once in an epoch")
        h.cover("trained")
    return f


R.put(fit_model(2, 1), "fit-model-0", "4 samples in batches of 2")
R.put(fit_model(4, 2), "fit-model-1", "4 samples, 2 epochs")


# -------------------------------------------------- numerical derivatives
def numgrad(sizes, m, scalar=False):
    """Central differences are exact for polynomials of degree two."""
    def f(h):
        u = loader.module("utils")
        n = sum(sizes)
        A = h.reals("A", (m, n, n), -1, 1)
        b = h.reals("b", (m, n), -1, 1)
        xs = [h.reals("x%d" % i, k, -1, 1) for i, k in enumerate(sizes)]
        before = [q.copy() for q in xs]
        args = [numpy_state(h, q) for q in xs]

        def fun(*a):
            h.true([np.shape(q) for q in a] == [(k, ) for k in sizes],
                   "arguments")
            z = np.concatenate([np.asarray(q, dtype=object) for q in a])
            v = [z.dot(A[i]).dot(z) + b[i].dot(z) for i in range(m)]
            if scalar:
                return num(h, v[0])
            return numpy_state(h, v)
        g = u.compute_numerical_gradient(fun, *args, dx=.25)
        if len(sizes) == 1:
            g = [g]
        h.true(len(g) == len(sizes), "one gradient for each argument")
        z = np.concatenate(before)
        o = 0
        for i, k in enumerate(sizes):
            gi = np.asarray(g[i], dtype=object)
            want = np.array([(A[j] + A[j].T).dot(z) + b[j] for j in range(m)])
            want = want[:, o:o + k]
            if scalar:
                want = want[0]
            h.true(gi.shape == want.shape, "shape")
            h.eq(gi, want, "gradient in argument %d" % i)
            o += k
        for a, q in zip(args, before):
            h.eq(np.asarray(a, dtype=object), q, "arguments unchanged")
        h.cover("gradient")
    return f


def num(h, v):
    return v if h.symbolic else float(v)


for i, a in enumerate((((1, ), 1), ((2, ), 2), ((1, 2), 2), ((2, 1), 1))):
    R.put(numgrad(*a), "numerical-gradient-%d" % i, "quadratic functions")


# ------------------------------------------------------ bounded polyhedra
class LP:
    """cvxpy: a feasibility program is infeasible (with Farkas multipliers)
    or feasible (with a point), as the path chooses."""
    def __init__(self, h, n):
        self.h, self.n, self.k = h, n, 0
        self.points = []

    def Variable(self, n, **k):
        return Var(n)

    @staticmethod
    def Maximize(e):
        return e
    Minimize = Maximize

    def Problem(self, obj, cons=()):
        outer, h, n = self, self.h, self.n
        p = types.SimpleNamespace(status=None, value=None)

        def solve(*a, **k):
            outer.k += 1
            i = outer.k
            zero = np.zeros(n, dtype=object)
            rows = []       # (coefficients, offset, equality)
            for c in cons:
                c0 = vec(c.e.f(zero))
                cols = [vec(c.e.f(unit(n, j))) - c0 for j in range(n)]
                for r in range(len(c0)):
                    rows.append(([q[r] for q in cols], c0[r], c.s == "="))
            if h.symbolic:
                y = h.reals("pt%d" % i, n, -99, 99)
                if bool(h.boolean("feas%d" % i)):
                    h.assume([c.cond(y) for c in cons])
                    p.status = "optimal"
                else:
                    lam = h.reals("lam%d" % i, len(rows), -99, 99)
                    h.assume([q >= 0 for q, r in zip(lam, rows) if not r[2]])
                    h.assume([sum(q * r[0][j] for q, r in zip(lam, rows)) == 0
                              for j in range(n)])
                    h.assume(sum(q * r[1] for q, r in zip(lam, rows)) == 1)
                    p.status = "infeasible"
                outer.points.append(y)
            else:
                from scipy.optimize import linprog
                eq = [r for r in rows if r[2]]
                le = [r for r in rows if not r[2]]
                r = linprog(
                    np.zeros(n), bounds=[(None, None)] * n, method="highs",
                    A_ub=[[float(v) for v in q[0]] for q in le] or None,
                    b_ub=[-float(q[1]) for q in le] or None,
                    A_eq=[[float(v) for v in q[0]] for q in eq] or None,
                    b_eq=[-float(q[1]) for q in eq] or None)
                p.status = "optimal" if r.status == 0 else "infeasible"
                outer.points.append(r.x)
        p.solve = solve
        return p


def vec(v):
    return np.asarray(v, dtype=object).reshape(-1)


def unit(n, j):
    e = np.zeros(n, dtype=object)
    e[j] = 1.
    return e


def bounded(m, n):
    def f(h):
        u = loader.module("utils")
        P = h.tensor("P", (m, n), -2, 2)
        M = h.elems(P).copy()
        d = h.reals("d", n, -3, 3)
        old = u.cp
        try:
            u.cp = lp = LP(h, n)
            r = u.is_polyhedron_bounded(P)
        finally:
            u.cp = old
        rec = AND([sum(a * q for a, q in zip(M[i], d)) <= 0
                   for i in range(m)], OR([q != 0 for q in d]))
        h.true(r is True or r is False, "a truth value")
        if r:
            big = OR([OR(q > .5, q < -.5) for q in d])
            h.true(NOT(AND(rec, big)), "reported bounded, recedes along d")
            h.cover("bounded")
        else:
            y = lp.points[-1]
            h.true(AND([sum(a * q for a, q in zip(M[i], y)) <= (
                0 if h.symbolic else 1e-6) for i in range(m)],
                OR([OR(q > .5, q < -.5) for q in y])),
                "reported unbounded without a direction of recession")
            h.cover("unbounded")
    return f


for m, n in ((1, 1), (2, 1), (2, 2), (3, 2)):
    R.put(bounded(m, n), "bounded_%d_%d" % (m, n), "%d rows" % m)


# --------------------------------------------------------- linear programs
def lpcost(n, m, me, fixed=None):
    """The optimal value and its gradient at a non-degenerate vertex."""
    def f(h):
        u = loader.module("utils")
        # the data come from the vertex y and the multipliers mu of the
        # active rows, so that y is the optimum
        d, A = h.tensor("d", (), -2, 2), h.tensor("A", (m, n), -2, 2)
        Ae = h.tensor("Ae", (me, n), -2, 2)
        if fixed is not None:
            A = torch.tensor(fixed, dtype=F64)
        ds, As, Aes = h.scalar(d), h.elems(A), h.elems(Ae).reshape(me, n)
        y, mu = h.reals("y", n, -3, 3), h.reals("mu", n, -2, 2)
        z = h.reals("z", n, -9, 9)
        pick = list(itertools.combinations(range(m), n - me))
        act = pick[h.choice("active", len(pick))]
        h.assume([mu[i] >= .0625 for i in range(me, n)])
        M = np.array([list(Aes[i]) for i in range(me)] +
                     [list(As[i]) for i in act], dtype=object)
        det = M[0, 0] if n == 1 else M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        h.assume(OR(det >= .25, det <= -.25))
        slack = h.reals("slack", m, .0625, 2)
        cs, bes = M.T.dot(mu), Aes.dot(y).reshape(me)
        bs = As.dot(y) + np.array([0. if i in act else slack[i]
                                   for i in range(m)], dtype=object)
        c, b, be = (h.as_tensor(np.asarray(q, dtype=object))
                    for q in (cs, bs, bes))
        for q in (c, d, A, b, Ae, be):
            q.requires_grad_(True)
        if me:
            z = y + z[0] * np.array([-Aes[0][1], Aes[0][0]], dtype=object)
        h.assume([As[i].dot(z) <= bs[i] for i in range(m)])

        def hook(model):
            v = model._vars
            sol = dict(zip(v, y))
            h.true(AND(model.feasible_conds(sol)), "an optimal solution is "
                   "excluded from the program")
            other = dict(zip(v, z))
            s = model._sense
            h.true(AND(model.feasible_conds(other)),
                   "a feasible point is excluded from the program")
            o = model._objective.eval(sol)
            h.true(s * o <= s * model._objective.eval(other) + 1e-6,
                   "the optimal vertex does not solve the program")
            model._sols = [(o, sol)]
            model._status = gs.GRB.OPTIMAL
        gs.SYMBOLIC_OPTIMIZE[0] = hook
        try:
            r = u.linear_program_cost(c, d, A, b, Ae, be)
        finally:
            gs.SYMBOLIC_OPTIMIZE[0] = None
        h.true(tuple(r.shape) == (), "a number")
        best = cs.dot(y) + ds
        h.eq(h.scalar(r), best, "optimal value")
        h.ge(h.scalar(r), cs.dot(z) + ds, "no feasible point is better")
        r.backward()
        h.eq(h.elems(c.grad), y, "derivative in the cost")
        h.eq(h.scalar(d.grad), 1., "derivative in the offset")
        gb = h.elems(b.grad)
        full = list(h.elems(be.grad)) if me else []
        full += [gb[i] for i in act]
        h.eq(M.T.dot(np.array(full, dtype=object)), cs,
             "derivative in the right-hand sides")
        for i in range(m):
            if i not in act:
                h.eq(gb[i], 0., "inactive row")
        h.cover("active %s" % (act, ))
    return f


def lpnone(h):
    u = loader.module("utils")
    c, d = h.tensor("c", 1, -2, 2), h.tensor("d", (), -2, 2)
    A = torch.tensor([[1.], [-1.]], dtype=F64)
    b = h.tensor("b", 2, -2, 2)
    h.assume(h.elems(b).sum() <= -.0625)
    e = torch.zeros((0, 1), dtype=F64), torch.zeros(0, dtype=F64)

    def hook(model):
        y = h.real("y", -9, 9)
        h.true(NOT(AND(model.feasible_conds({model._vars[0]: y}))),
               "an infeasible program is solved")
        model._sols, model._status = [], gs.GRB.INFEASIBLE
    gs.SYMBOLIC_OPTIMIZE[0] = hook
    try:
        r = u.linear_program_cost(c, d, A, b, *e)
    finally:
        gs.SYMBOLIC_OPTIMIZE[0] = None
    h.true(r is None, "infeasible")
    h.cover("none")


for n, m, me in ((1, 1, 0), (1, 2, 0), (2, 2, 0), (2, 2, 1)):
    R.put(lpcost(n, m, me), "lp-cost_%d_%d_%d" % (n, m, me),
          "%d rows and %d equations, data symbolic" % (m, me))
R.put(lpcost(2, 3, 0, [[1., .5], [-1., 1.], [.25, -1.]]), "lp-cost-three",
      "three fixed rows, the rest symbolic")
R.put(lpnone, "lp-infeasible", "two contradicting rows")


# ------------------------------------------------------------- small ones
def nearest(n):
    def f(h):
        u = loader.module("utils")
        a = h.reals("a", n, -3, 3)
        v = h.real("v", -3, 3)
        r = u.find_nearest(numpy_state(h, a), v)
        h.true(OR([r == q for q in a]), "an entry of the array")
        for q in a:
            h.true(OR(AND(v - r <= q - v, r - v <= q - v),
                      AND(v - r <= v - q, r - v <= v - q)), "nearest")
        h.cover("nearest")
    return f


for n in (1, 3):
    R.put(nearest(n), "nearest_%d" % n, "%d entries" % n)


def tonumpy(squeeze):
    def f(h):
        u = loader.module("utils")
        a = h.tensor("a", (1, 3), -1, 1).requires_grad_(True)
        b = h.tensor("b", 2, -1, 1)
        L = [a * 2, "kept", b, None]
        r = u.torch_to_numpy(L, squeeze) if squeeze is not None else \
            u.torch_to_numpy(L)
        h.true(len(r) == 4 and r[1] == "kept" and r[3] is None, "entries")
        h.true(not isinstance(r[0], torch.Tensor), "array")
        h.true(np.shape(r[0]) == ((1, 3) if squeeze is False else (3, )),
               "shape")
        h.eq(np.asarray(r[0], dtype=object).reshape(-1),
             2 * h.elems(a)[0], "values")
        h.eq(np.asarray(r[2], dtype=object), h.elems(b), "values")
        h.cover("numpy")
    return f


for i, q in enumerate((None, True, False)):
    R.put(tonumpy(q), "to-numpy-%d" % i, "entries symbolic")
