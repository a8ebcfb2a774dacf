"""Barrier functions."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, mknet, netfun, tt, vmax, F64)
from symx.lyapsys import System, inbox, isin, params, untouched

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-3; barrier networks with up to three hidden "
          "layers and seven hidden units and fixed rational weights; "
          "network, hybrid and closed-loop systems on fixed boxes; states, "
          "reference state, region limits, slacks and binary variables "
          "symbolic; a few fixed constants and rates.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact",
               "the program is the list of variables, bounds and rows "
               "recorded by the stand-in for the solver's API",
               "the region and the next state are inside the system's box"]
NETS = {"one": (2, ), "deep": (2, 1), "single": (1, ), "three": (3, ),
        "wide": (4, 3), "long": (2, 2, 2)}


def make(h, kind, nx, net, method="IA", discrete=True):
    b = loader.module("barrier")
    mu = loader.module("mip_utils")
    S = System(h, kind, nx, discrete)
    phi = mknet((nx, ) + NETS[net] + (1, ), 91 + len(NETS[net]), .1)
    B = b.DiscreteTimeBarrier(S.s, phi)
    h.true(B.network_bound_propagate_method ==
           mu.PropagateBoundsMethod.IA, "default bounds")
    B.network_bound_propagate_method = getattr(mu.PropagateBoundsMethod,
                                               method)
    return S, B, phi


def values(kind, nx, net, c, eps):
    def f(h):
        S, B, phi = make(h, kind, nx, net)
        p0 = params(phi, S.net)
        T = h.as_tensor
        X = np.array([S.point("x"), S.point("z"), S.point("w")])
        xs = S.point("xs")
        for x in X:
            h.assume(OR([q for q, _ in S.succ(x)]) if S.ms else True)
            if S.ms:
                # away from the boundary of two modes
                h.assume(x[0] != .25)
        H = lambda x: netfun(phi, x)[0] - netfun(phi, xs)[0] + c  # noqa
        tx, ts = T(X), T(xs)
        v = B.value(tx[0], ts, c)
        h.true(tuple(v.shape) == (1, ), "shape of the value")
        h.eq(h.elems(v)[0], H(X[0]), "value")
        V = B.value(tx, ts, c)
        h.true(tuple(V.shape) == (3, ), "shape of the batch")
        h.eq(h.elems(V), np.array([H(x) for x in X]), "batch of values")
        h.eq(h.elems(B.value(ts, ts, c))[0], c, "value at the reference")

        def nxt(x):
            for q, y in S.succ(x):
                if q is True:
                    return y
            (q, y), (_, z) = S.succ(x)
            from symx.lib import where
            return np.array([where(q, a, b) for a, b in zip(y, z)])
        Y = [nxt(x) for x in X]
        D = [(1 - eps) * H(x) - H(y) for x, y in zip(X, Y)]
        d = B.derivative(tx[0], ts, c, eps)
        h.eq(h.elems(d).reshape(-1)[0], D[0], "condition at a state")
        if not S.ms:
            d = B.derivative(tx, ts, c, eps)
            h.true(tuple(d.shape) == (3, ), "shape of the batch")
            h.eq(h.elems(d), np.array(D), "condition at a batch of states")
        h.eq(h.elems(tx), X, "the states are left alone")
        h.eq(h.elems(ts), xs, "the reference is left alone")
        untouched(h, (phi, S.net), p0)
        h.cover("values")
    return f


for k, nx, net, c, e in (
        ("auto", 2, "one", .5, .25), ("auto_eq", 2, "deep", .125, .75),
        ("auto_res", 1, "three", 2., 0.), ("hybrid", 2, "one", .5, .375),
        ("feedback", 2, "one", 1.5, .25), ("auto", 3, "one", .25, 1.5),
        ("feedback_lin", 1, "single", .75, .5)):
    R.put(values(k, nx, net, c, e), "values_%s_%d_%s" % (k, nx, net),
          "states and reference symbolic",
          tier="thorough" if (k, nx) == ("feedback", 2) else "quick")


def region(h, kind, nx, lo, up):
    """A region as constraints, and as a condition."""
    g = loader.module("gurobi_torch_mip")
    r = g.MixedIntegerConstraintsReturn()
    I = np.eye(nx)
    if kind == "free":
        return r, lambda x: True
    if kind == "half":
        q = h.tensor("q", 2, -1, 1)
        A = np.array([[1., -.5, .25][:nx], [.5, 2., -1.][:nx]])
        r.Ain_input, r.rhs_in = tt(A), q
        e = h.elems(q).copy()
        return r, lambda x: AND([v <= b for v, b in zip(A.dot(x), e)])
    if kind == "eq":
        q = h.tensor("q", 1, -1, 1)
        r.Aeq_input, r.rhs_eq = tt(I[:1]), q
        e = h.elems(q).copy()
        return r, lambda x: x[0] == e[0]
    if kind == "bounds":
        a, b = h.tensor("ra", nx, -1, 1), h.tensor("rb", nx, -1, 1)
        r.input_lo, r.input_up = a, b
        p, q = h.elems(a).copy(), h.elems(b).copy()
        return r, lambda x: isin(x, p, q)
    if kind == "union":
        # s = selected half: x0 <= q0 or x0 >= q1, with binaries and slack
        q = h.tensor("q", 2, -1, 1)
        e = h.elems(q).copy()
        n1 = I[:1]
        Z = np.zeros
        r.Ain_input = tt(np.vstack((n1, -n1, Z((2, nx)))))
        r.Ain_slack = tt([[0.], [0.], [1.], [-1.]])
        r.Ain_binary = tt([[4., 0.], [0., 4.], [-1., 0.], [1., 0.]])
        r.rhs_in = torch.cat((q[:1] + 4, -q[1:] + 4, torch.zeros(
            2, dtype=F64)))
        r.Aeq_binary, r.rhs_eq = tt([[1., 1.]]), tt([1.])
        return r, lambda x: OR(x[0] <= e[0], x[0] >= e[1])
    raise RuntimeError(kind)


def value_program(nx, net, reg, safe, method, c):
    def f(h):
        S, B, phi = make(h, "auto", nx, net, method)
        p0 = params(phi)
        r, cond = region(h, reg, nx, S.lo, S.up)
        xs = S.point("xs")
        n0 = params(phi)
        milp, xv = B.value_as_milp(h.as_tensor(xs), c, r, safe)
        m = milp.gurobi_model
        GRB = loader.module("gurobi_torch_mip").gurobipy.GRB
        h.true(len(xv) == nx, "states")
        h.true(m.ModelSense == GRB.MAXIMIZE, "sense")
        bins = [v for v in m._vars if v.vtype == "B"]
        H = lambda x: netfun(phi, x)[0] - netfun(phi, xs)[0] + c  # noqa
        sg = -1 if safe else 1
        x = h.reals("x", nx, -2, 2)
        which = h.choice("which", 2)
        if which == 0:
            h.assume(isin(x, S.lo, S.up))
            h.assume(cond(x))
            h.exists(m, dict(zip(xv, x)), "every state of the region")
            h.cover("feasible")
        else:
            val = h.assign(m, dict(zip(xv, x)), "m")
            h.true(cond(x) if cond(x) is not True else True,
                   "only states of the region")
            h.true(near(m._objective.eval(val), sg * H(x), 1e-5),
                   "objective is the barrier value")
            h.cover("completion")
        h.true(all(v.vtype in "BC" for v in m._vars), "types")
        untouched(h, (phi, ), p0)
    return f


for nx, net, reg, safe, mth in (
        (2, "one", "half", False, "IA"), (2, "one", "half", True, "IA"),
        (2, "one", "union", False, "IA"), (1, "three", "union", True, "IA"),
        (2, "deep", "half", False, "IA"), (2, "deep", "bounds", True, "IA"),
        (1, "single", "eq", False, "IA"), (1, "single", "free", True, "IA"),
        (2, "one", "bounds", False, "LP"), (2, "one", "half", True, "MIP"),
        (2, "deep", "half", True, "IA_MIP"), (2, "three", "eq", True, "IA")):
    R.put(value_program(nx, net, reg, safe, mth, .375),
          "value_program_%d_%s_%s_%s_%s" % (
              nx, net, reg, "safe" if safe else "unsafe", mth),
          "state, reference, region and completion symbolic")


def deriv_program(kind, nx, net, method, c, eps, vt="B"):
    def f(h):
        S, B, phi = make(h, kind, nx, net, method)
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        p0 = params(phi, S.net)
        xs = S.point("xs")
        kw = {} if vt == "B" else {"binary_var_type": {
            "R": g.BINARYRELAX, "C": GRB.CONTINUOUS}[vt]}
        r = B.derivative_as_milp(h.as_tensor(xs), c, eps, **kw)
        m = r.milp.gurobi_model
        h.true(m.ModelSense == GRB.MAXIMIZE, "sense")
        N = sum(NETS[net])
        h.true(len(r.x) == nx and len(r.x_next) == nx and len(
            r.binary_current) == N and len(r.binary_next) == N, "variables")
        h.true(all(v.vtype == ("B" if vt == "B" else "C") for v in list(
            r.binary_current) + list(r.binary_next)), "types")
        h.true(r.system_constraint_return is not None and
               r.barrier_relu_mip_cnstr_ret is not None, "parts")
        H = lambda x: netfun(phi, x)[0] - netfun(phi, xs)[0] + c  # noqa
        x = S.point()
        h.assume(S.ok(x))
        suc = S.succ(x)
        untouched(h, (phi, S.net), p0)
        which = h.choice("which", len(suc) + 1)
        if which < len(suc):
            q, y = suc[which]
            h.assume(q)
            h.assume(isin(y, S.lo, S.up))
            h.exists(m, {**dict(zip(r.x, x)), **dict(zip(r.x_next, y))},
                     "the step is feasible")
            h.cover("feasible")
        elif vt == "B":
            val = h.assign(m, dict(zip(r.x, x)), "m")
            o = m._objective.eval(val)
            h.true(OR([AND(q, near(o, (1 - eps) * H(x) - H(y), 1e-4), *[
                near(val[v], w, 1e-5) for v, w in zip(r.x_next, y)])
                for q, y in suc]), "objective is the barrier condition")
            h.cover("completion")
    return f


for k, nx, net, mth, vt in (
        ("auto", 1, "one", "IA", "B"), ("auto", 2, "one", "IA", "B"),
        ("auto_eq", 2, "one", "IA", "B"), ("auto_res", 2, "single", "IA", "B"),
        ("hybrid", 1, "one", "IA", "B"), ("hybrid", 2, "one", "IA", "B"),
        ("feedback", 1, "single", "IA", "B"),
        ("feedback_lin", 1, "one", "IA", "B"), ("auto", 1, "deep", "IA", "B"),
        ("auto_eq", 1, "one", "LP", "B"), ("auto_eq", 1, "one", "MIP", "B"),
        ("auto_eq", 2, "one", "IA", "R"), ("hybrid", 1, "one", "IA", "C"),
        ("feedback", 2, "one", "IA", "B"), ("auto_eq", 2, "deep", "IA", "B")):
    R.put(deriv_program(k, nx, net, mth, .375, .25, vt),
          "derivative_program_%s_%d_%s_%s_%s" % (k, nx, net, mth, vt),
          "state, reference and completion symbolic",
          tier="thorough" if (k, nx) == ("feedback", 2) or (nx, net) == (
              2, "deep") else "quick")


def losses(nx, net, red, c, eps, margin):
    def f(h):
        S, B, phi = make(h, "auto", nx, net)
        X, Y = h.reals("x", (2, nx), -1, 1), h.reals("y", (2, nx), -1, 1)
        xs = h.reals("xs", nx, -1, 1)
        H = lambda x: netfun(phi, x)[0] - netfun(phi, xs)[0] + c  # noqa
        T = h.as_tensor
        kw = {} if margin is None else {"margin": margin}
        if red is not None:
            kw["reduction"] = red
        l = B.derivative_loss_at_samples_and_next_states(
            T(xs), c, eps, T(X), T(Y), **kw)
        e = [vmax((1 - eps) * H(x) - H(y) + (margin or 0.), 0)
             for x, y in zip(X, Y)]
        l = h.scalar(l)
        if red == "max":
            h.eq(l, vmax(*e), "largest hinge")
        elif red == "4norm":
            h.true(l >= 0, "norm")
            h.eq(l * l * l * l, sum(v * v * v * v for v in e),
                 "fourth power of the norm")
        else:
            h.eq(l, sum(e) / 2, "mean hinge")
        h.cover("active", AND(e[0] > 0, e[1] > 0))
    return f


for red in (None, "mean", "max", "4norm"):
    R.put(losses(2, "one", red, .5, .25, None if red is None else .125),
          "loss_%s" % red, "samples symbolic")


def past(kind, nx, net, method, how):
    """The programs of an object which was asked other things before."""
    def ask(h, o, xs, c, eps, r, safe=False):
        S, B, phi = o
        return (B.value_as_milp(xs, c, r, safe),
                B.derivative_as_milp(xs, c, eps),
                B.value(.5 * xs + .01, xs, c),
                B.derivative(.5 * xs + .01, xs, c, eps))

    def args(h):
        return (h.tensor("xs", nx, -.5, .2), .625,
                h.real("eps", .01, .5), region(h, "union", nx, None,
                                               None)[0])
    return history(
        lambda h: make(h, kind, nx, net, method),
        lambda h, o, a: ask(h, o, tt([.125] * nx), 1.5, .75, region(
            h, "free", nx, None, None)[0], True),
        lambda h, o, a: ask(h, o, *a),
        lambda o: [o[2]] + ([] if o[0].net is None else [o[0].net]), how,
        args)


for i, a in enumerate((("auto", 2, "one", "IA", "data"),
                       ("auto_eq", 1, "deep", "LP", "copy"),
                       ("hybrid", 2, "one", "IA", "copy"),
                       ("feedback", 2, "one", "IA", "data"))):
    R.put(past(*a), "history_%d_%s" % (i, a[0]),
          "reference and rate symbolic")
for k, nx, net in (("feedback", 3, "one"), ("auto_eq", 2, "wide"),
                   ("hybrid", 3, "long"), ("auto_res", 3, "one")):
    R.put(deriv_program(k, nx, net, "IA", .375, .25, "B"),
          "deriv_program_%s_%d_%s" % (k, nx, net),
          "state, completion symbolic")
for nx, net, reg, safe in ((3, "wide", "half", False),
                           (3, "long", "union", True)):
    R.put(value_program(nx, net, reg, safe, "IA", .375),
          "value_program_%d_%s_%s" % (nx, net, reg),
          "state, reference, region and completion symbolic")
