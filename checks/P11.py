"""Lyapunov candidate, its positivity program and level-set restrictions."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, mknet, netfun, preacts, tt, absv,
                      F64)
from symx.lyapsys import (System, isin, params, untouched, transform,
                          candidate, l1err, inbox)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-3, networks with up to three hidden layers and"
          " seven hidden units and fixed rational weights, square, tall and"
          " default transforms, fixed boxes, a few fixed weights and rates;"
          " states, equilibria (for values), level limits, slacks and "
          "binary variables symbolic.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact",
               "the program is the list of variables, bounds and rows "
               "recorded by the stand-in for the solver's API"]
NETS = {"one": (2, ), "deep": (2, 1), "single": (1, ), "three": (3, ),
        "wide": (4, 3), "long": (2, 2, 2)}
XE = {"mid": [.25, -.125, .5], "lo": [-1., -.75, -.5], "up": [.75, 1., 1.25],
      "mix": [-1., 1., .5]}


def make(h, nx, net, trans, method="IA", kind="auto", equ=None, bias=True,
         cls="discrete"):
    l = loader.module("lyapunov")
    c = loader.module("continuous_time_lyapunov")
    mu = loader.module("mip_utils")
    S = System(h, kind, nx, True, equ=equ)
    phi = mknet((nx, ) + NETS[net] + (1, ), 91 + len(NETS[net]), .1, bias)
    C = {"discrete": l.LyapunovDiscreteTimeHybridSystem,
         "base": l.LyapunovHybridLinearSystem,
         "cont": c.LyapunovContinuousTimeSystem}[cls]
    L = C(S.s, phi)
    h.true(L.network_bound_propagate_method ==
           mu.PropagateBoundsMethod.IA, "default bounds")
    L.network_bound_propagate_method = getattr(mu.PropagateBoundsMethod,
                                               method)
    tR, nR = transform(trans, nx)
    return S, L, phi, tR, nR


def values(kind, nx, net, trans, lam, cls):
    def f(h):
        S, L, phi, tR, nR = make(h, nx, net, trans, kind=kind, cls=cls)
        xe = h.reals("xe", nx, -2, 2)
        X = h.reals("x", (3, nx), -2, 2)
        p0 = params(phi)
        T = h.as_tensor
        tx, te = T(X), T(xe)
        V = [candidate(phi, x, xe, lam, nR) for x in X]
        kw = {} if trans == "none" else {"R": tR}
        v = L.lyapunov_value(tx[0], te, lam, **kw)
        h.true(v.numel() == 1, "shape of the value")
        h.eq(h.elems(v).reshape(-1)[0], V[0], "value")
        b = L.lyapunov_value(tx, te, lam, R=tR)
        h.true(tuple(b.shape) == (3, ), "shape of the batch")
        h.eq(h.elems(b), np.array(V), "batch")
        b = L.lyapunov_value(tx[:1], te, lam, R=tR)
        h.eq(h.elems(b).reshape(-1), np.array(V[:1]), "batch of one")
        z = L.lyapunov_value(te, te, lam, R=tR)
        h.eq(h.elems(z).reshape(-1)[0], 0, "value at the equilibrium")
        ok = isin(xe, S.lo, S.up)
        try:
            L.validate_x_equilibrium(te)
            good = True
        except AssertionError:
            good = False
        h.true(ok if good else OR([OR(v < a, v > b) for v, a, b in zip(
            xe, S.lo, S.up)]), "equilibria outside the box are refused")
        h.eq(h.elems(tx), X, "the states are left alone")
        h.eq(h.elems(te), xe, "the equilibrium is left alone")
        if tR is not None:
            h.eq(h.elems(tR), nR, "the transform is left alone")
        untouched(h, (phi, ), p0)
        h.cover("values")
    return f


for k, nx, net, t, lam, c in (
        ("auto", 1, "one", "none", .5, "base"),
        ("auto", 2, "one", "sq", .5, "discrete"),
        ("auto_eq", 2, "deep", "tall", 1.25, "discrete"),
        ("hybrid", 2, "one", "eye", .75, "discrete"),
        ("feedback", 2, "three", "sq", .25, "cont"),
        ("auto", 3, "one", "tall", .375, "cont"),
        ("auto_res", 1, "single", "diag", 0., "base")):
    R.put(values(k, nx, net, t, lam, c), "values_%s_%d_%s_%s" % (
        k, nx, net, t), "states and equilibrium symbolic")


def error_program(nx, trans, eq, zero, vt):
    """The l1 norm of the transformed error."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        S, L, phi, tR, nR = make(h, nx, "one", trans)
        xe = np.array(XE[eq][:nx])
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(nx, lb=-GRB.INFINITY, name="x")
        kw = {"binary_for_zero_input": True} if zero else {}
        if vt != "B":
            kw["binary_var_type"] = {"R": g.BINARYRELAX,
                                     "C": GRB.CONTINUOUS}[vt]
        if tR is not None:
            kw["R"] = tR
        s, al = L.add_state_error_l1_constraint(mip, tt(xe), xv, **kw)
        m = mip.gurobi_model
        k = nR.shape[0]
        h.true(len(s) == k and len(al) == k, "one entry per row")
        x = S.point()
        e = nR.dot(x - xe)
        fixed = dict(zip(xv, x))
        flat = [b for a in al for b in (a if isinstance(a, list) else [a])]
        h.true(all(b.vtype == ("B" if vt == "B" else "C") for b in flat),
               "type of the binary variables")
        h.true(all(len(a) == 3 for a in al) if zero else len(flat) == k,
               "number of binary variables")
        h.exists(m, {**fixed, **dict(zip(s, [absv(v) for v in e]))},
                 "every state is feasible")
        if tR is not None:
            h.eq(h.elems(tR), nR, "the transform is left alone")
        if vt != "B":
            h.cover("relaxed")
            return
        val = h.assign(m, fixed, "m")
        for i in range(k):
            h.true(near(val[s[i]], absv(e[i]), 1e-6), "absolute value")
            if zero:
                a = [val[b] for b in al[i]]
                h.true(near(sum(a), 1, 1e-6), "one choice")
                h.true(IMPLIES(a[0] > .5, e[i] <= 1e-6), "negative")
                h.true(IMPLIES(a[1] > .5, absv(e[i]) <= 1e-6), "zero")
                h.true(IMPLIES(a[2] > .5, e[i] >= -1e-6), "positive")
            else:
                a = val[al[i]]
                h.true(IMPLIES(a > .5, e[i] >= -1e-6), "positive")
                h.true(IMPLIES(a < .5, e[i] <= 1e-6), "negative")
        h.cover("completion")
    return f


def choices(nx, trans, eq):
    """At a zero error both one-sided choices are feasible."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        S, L, phi, tR, nR = make(h, nx, "one", trans)
        xe = np.array(XE[eq][:nx])
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(nx, lb=-GRB.INFINITY, name="x")
        s, al = L.add_state_error_l1_constraint(mip, tt(xe), xv, R=tR)
        x = S.point()
        e = nR.dot(x - xe)
        i = h.choice("i", nR.shape[0])
        up = h.choice("up", 2)
        lo_i, up_i = [sum((min if k == 0 else max)(
            c * (a - q), c * (b - q)) for c, a, b, q in zip(
            nR[i], S.lo, S.up, xe)) for k in range(2)]
        if lo_i < 0 < up_i:
            h.assume(e[i] >= 0 if up else e[i] <= 0)
            h.exists(mip.gurobi_model, {**dict(zip(xv, x)),
                                        al[i]: 1. if up else 0.},
                     "both sides of the kink")
            h.cover("choice")
        else:
            h.cover("one side only")
    return f


for nx, t, eq in ((1, "none", "mid"), (2, "none", "mid"), (2, "sq", "mid"),
                  (2, "tall", "mid"), (2, "diag", "mix"), (2, "sq", "lo"),
                  (3, "sq", "mid"), (2, "tall", "up"), (1, "diag", "up")):
    R.put(error_program(nx, t, eq, False, "B"),
          "error_%d_%s_%s" % (nx, t, eq), "state, completion symbolic",
          tier="thorough" if nx == 3 else "quick")
    R.put(choices(nx, t, eq), "choices_%d_%s_%s" % (nx, t, eq),
          "state symbolic", tier="thorough" if nx == 3 else "quick")
for nx, t, eq in ((1, "none", "mid"), (2, "sq", "mid"), (2, "diag", "mix"),
                  (2, "tall", "mid")):
    R.put(error_program(nx, t, eq, True, "B"),
          "error_zero_%d_%s_%s" % (nx, t, eq), "state, completion symbolic")
for v in "RC":
    R.put(error_program(2, "tall", "mid", False, v), "error_vtype" + v,
          "state symbolic")
    R.put(error_program(2, "sq", "mid", True, v), "error_zero_vtype" + v,
          "state symbolic")


def outside(h):
    """An equilibrium outside the box is refused."""
    g = loader.module("gurobi_torch_mip")
    GRB = g.gurobipy.GRB
    S, L, phi, tR, nR = make(h, 2, "one", "none")
    xe = h.reals("xe", 2, -2, 2)
    h.assume(OR([OR(v < a, v > b) for v, a, b in zip(xe, S.lo, S.up)]))
    mip = g.GurobiTorchMILP(F64)
    xv = mip.addVars(2, lb=-GRB.INFINITY, name="x")
    try:
        L.add_state_error_l1_constraint(mip, h.as_tensor(xe), xv)
    except Exception as e:
        h.true("x_equilibrium" in str(e), "refused")
    else:
        h.fail("an equilibrium outside the box is accepted")
    h.cover("outside")


R.put(outside, "error_outside", "equilibrium symbolic")


def positivity(nx, net, trans, method, lam, eps, eq="mid", warm=False,
               kind="auto", bias=True):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        S, L, phi, tR, nR = make(h, nx, net, trans, method, kind, bias=bias)
        p0 = params(phi)
        xe = np.array(XE[eq][:nx])
        kw = {}
        if warm:
            kw["x_warmstart"] = h.as_tensor(S.point("xw"))
        te = tt(xe)
        milp, xv = L.lyapunov_positivity_as_milp(te, lam, eps, R=tR, **kw)
        m = milp.gurobi_model
        h.true(m.ModelSense == GRB.MAXIMIZE and len(xv) == nx, "program")
        h.true(all(v.vtype in "BC" for v in m._vars), "types")
        x = h.reals("x", nx, -2, 2)
        want = eps * l1err(x, xe, nR) - candidate(phi, x, xe, lam, nR)
        untouched(h, (phi, ), p0)
        h.eq(h.elems(te), xe, "the equilibrium is left alone")
        if tR is not None:
            h.eq(h.elems(tR), nR, "the transform is left alone")
        if h.choice("which", 2) == 0:
            h.assume(isin(x, S.lo, S.up))
            h.exists(m, dict(zip(xv, x)), "every state is feasible")
            h.cover("feasible")
            return
        val = h.assign(m, dict(zip(xv, x)), "m")
        h.true(isin(x, S.lo, S.up, 1e-6), "only states of the box")
        h.true(near(m._objective.eval(val), want, 1e-5),
               "objective is the violation of the condition")
        h.cover("completion")
    return f


for nx, net, t, mth, lam, eps, eq in (
        (1, "one", "none", "IA", .5, .125, "mid"),
        (2, "one", "none", "IA", .5, .125, "mid"),
        (2, "one", "sq", "IA", .25, .0625, "mid"),
        (2, "one", "tall", "IA", .25, .75, "mid"),
        (2, "deep", "sq", "IA", .5, .125, "mid"),
        (2, "three", "none", "IA", 1., .5, "mid"),
        (2, "single", "diag", "IA", .5, .125, "mid"),
        (1, "single", "none", "IA", .5, .25, "mid"),
        (2, "one", "sq", "LP", .5, .125, "mid"),
        (2, "deep", "none", "MIP", .5, .125, "mid"),
        (2, "one", "sq", "IA", .5, .125, "lo"),
        (1, "deep", "diag", "IA_MIP", .5, .125, "up"),
        (3, "one", "sq", "IA", .5, .125, "mid")):
    R.put(positivity(nx, net, t, mth, lam, eps, eq),
          "positivity_%d_%s_%s_%s_%s" % (nx, net, t, mth, eq),
          "state, completion symbolic",
          tier="thorough" if nx == 3 or (net == "deep" and nx == 2 and
                                         mth == "IA") else "quick")
R.put(positivity(2, "one", "sq", "IA", .5, .125, warm=True),
      "positivity_warm", "state, start, completion symbolic")
R.put(positivity(2, "one", "tall", "IA", .5, .125, kind="hybrid"),
      "positivity_hybrid", "state, completion symbolic")
R.put(positivity(2, "one", "tall", "IA", .5, .125, bias=False),
      "positivity_nobias", "state, completion symbolic")


def value_rows(nx, net, trans, lam, via, lower, upper):
    """Candidate as a linear expression; restriction to a level range."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        S, L, phi, tR, nR = make(h, nx, net, trans)
        xe = np.array(XE["mid"][:nx])
        te = tt(xe)
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(nx, lb=-GRB.INFINITY, name="x")
        m = mip.gurobi_model
        lo = h.real("lo", -1, 1) if lower else None
        up = h.real("up", -1, 2) if upper else None
        if lower and upper:
            h.assume(lo <= up)
        if via == "value":
            co, va, c, s = L._lyapunov_value_as_milp(mip, xv, te, lam, tR)
            h.true(len(s) == nR.shape[0], "error entries")
        else:
            z, be, a, b, ret = L.add_lyap_relu_output_constraint(mip, xv)
            kw = {} if trans == "none" else {"R": tR}
            s, al = L.add_state_error_l1_constraint(mip, te, xv, **kw)
            T = lambda v: None if v is None else h.as_tensor(  # noqa
                np.array([v], dtype=object))[0]
            L.add_lyapunov_bounds_constraint(
                T(lo), T(up), mip, a, b, lam, z, phi(te), s)
        x = h.reals("x", nx, -2, 2)
        V = candidate(phi, x, xe, lam, nR)
        rng = []
        if lower:
            rng.append(V >= lo)
        if upper:
            rng.append(V <= up)
        if h.choice("which", 2) == 0:
            h.assume(isin(x, S.lo, S.up))
            if rng:
                h.assume(rng)
            h.exists(m, dict(zip(xv, x)), "states of the range are feasible")
            h.cover("feasible")
            return
        val = h.assign(m, dict(zip(xv, x)), "m")
        h.true(isin(x, S.lo, S.up, 1e-6), "only states of the box")
        if via == "value":
            e = [q for t in co for q in h.elems(t).reshape(-1)]
            vs = [q for v in va for q in v]
            h.true(len(e) == len(vs), "coefficients and variables")
            got = sum(p * val[q] for p, q in zip(e, vs)) + h.scalar(c)
            h.true(near(got, V, 1e-5), "linear expression of the candidate")
            for i in range(nR.shape[0]):
                h.true(near(val[s[i]], absv(nR[i].dot(x - xe)), 1e-5),
                       "error entry")
        else:
            got = sum(p * val[q] for p, q in zip(
                h.elems(a).reshape(-1), z)) + h.scalar(b)
            h.true(near(got, netfun(phi, x)[0], 1e-5), "network output")
            if lower:
                h.true(V >= lo - 1e-5, "lower level")
            if upper:
                h.true(V <= up + 1e-5, "upper level")
            pre = [v for p in preacts(phi, x) for v in p]
            h.true(len(pre) == len(be), "one binary per unit")
            for p, q in zip(pre, be):
                h.true(AND(IMPLIES(val[q] > .5, p >= -1e-6),
                           IMPLIES(val[q] < .5, p <= 1e-6)),
                       "binary is the unit's side")
        h.cover("completion")
    return f


for nx, net, t, lam in ((1, "one", "none", .5), (2, "one", "sq", .25),
                        (2, "single", "tall", .5), (2, "deep", "none", .75),
                        (1, "single", "none", .5)):
    R.put(value_rows(nx, net, t, lam, "value", False, False),
          "value_rows_%d_%s_%s" % (nx, net, t), "state, completion symbolic")
    for l, u in ((1, 1), (1, 0), (0, 1)):
        R.put(value_rows(nx, net, t, lam, "bounds", l, u),
              "level_%d_%s_%s_%d%d" % (nx, net, t, l, u),
              "state, levels, completion symbolic")


def past(nx, net, trans, other, cls, method, how):
    """Programs of an object which has been asked about other states, other
    transforms and with other networks."""
    def ask(h, o, t, lam, eps, R, lo, up):
        g = loader.module("gurobi_torch_mip")
        L, phi = o[1:3]
        mip = g.GurobiTorchMILP(torch.float64)
        x = mip.addVars(nx, lb=-2., vtype=g.gurobipy.GRB.CONTINUOUS)
        c, v, k, s = L._lyapunov_value_as_milp(mip, x, t, lam, R)
        L.add_lyapunov_bounds_constraint(
            lo, up, mip, c[0], k + phi(t).squeeze(), lam, v[0],
            phi(t).squeeze(), s)
        return (L.lyapunov_positivity_as_milp(t, lam, eps, R=R), c, v, k,
                L.lyapunov_value(.5 * t + .25, t, lam, R=R), mip)

    def args(h):
        return (h.tensor("xe", nx, -.5, .5), h.real("lam", 0, 2),
                h.real("eps", 0, 1), h.real("lo", -1, 1), h.real("up", 1, 2))
    return history(
        lambda h: make(h, nx, net, trans, method, cls=cls),
        lambda h, o, a: ask(h, o, tt(XE["mix"][:nx]), 1.5, .75,
                            transform(other, nx)[0], None, 3.),
        lambda h, o, a: ask(h, o, a[0], a[1], a[2], o[3], a[3], a[4]),
        lambda o: [o[2]], how, args)


for i, a in enumerate(((2, "one", "none", "sq", "discrete", "IA", "data"),
                       (2, "one", "tall", "none", "cont", "IA", "copy"),
                       (1, "deep", "none", "none", "base", "LP", "copy"),
                       (2, "deep", "sq", "tall", "discrete", "MIP",
                        "data"))):
    R.put(past(*a), "history_%d" % i,
          "equilibrium, rates and limits symbolic")
for nx, net, t, mth in ((3, "wide", "tall", "IA"), (3, "long", "none", "LP"),
                        (2, "wide", "sq", "IA")):
    R.put(positivity(nx, net, t, mth, .5, .25), "positivity_%d_%s_%s" % (
        nx, net, t), "state, completion symbolic")
for k, nx, net, t, c in (("feedback", 3, "wide", "tall", "discrete"),
                         ("auto_eq", 3, "long", "sq", "cont")):
    R.put(values(k, nx, net, t, .5, c), "values_%s_%d_%s_%s" % (
        k, nx, net, c), "states symbolic")
