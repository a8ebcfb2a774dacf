"""Discrete-time decrease program."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import AND, OR, near, mknet, preacts, tt
from symx.lyapsys import (System, isin, params, untouched, transform,
                          candidate, l1err)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-3, Lyapunov networks with one to seven hidden "
          "units in up to three layers and fixed rational weights; network,"
          " piecewise-affine and closed-loop systems on fixed boxes; "
          "square, tall and default transforms; the three decrease forms "
          "with fixed weights and rates; at most three rounds of "
          "strengthening; states, slacks, binary variables and next states "
          "symbolic.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds and strengthening is exact",
               "the program is the list of variables, bounds and rows "
               "recorded by the stand-in for the solver's API",
               "the next state is inside the system's box"]
NETS = {"one": (2, ), "deep": (2, 1), "single": (1, ), "three": (3, ),
        "wide": (4, 3), "long": (2, 2, 2)}


def make(h, kind, nx, net, trans, method="IA", equ=None, seed=None):
    l = loader.module("lyapunov")
    mu = loader.module("mip_utils")
    S = System(h, kind, nx, True, equ=equ)
    phi = mknet((nx, ) + NETS[net] + (1, ), seed or 91 + len(NETS[net]), .1)
    L = l.LyapunovDiscreteTimeHybridSystem(S.s, phi)
    L.network_bound_propagate_method = getattr(mu.PropagateBoundsMethod,
                                               method)
    tR, nR = transform(trans, nx)
    return S, L, phi, tR, nR


def decrease(phi, x, y, xe, lam, eps, form, nR):
    V = lambda v: candidate(phi, v, xe, lam, nR)  # noqa
    if form == "Asymp":
        return V(y) - V(x) + eps * l1err(x, xe, nR)
    d = V(y) - V(x) + eps * V(x)
    return d if form == "ExpLower" else -d


def at_state(kind, nx, net, trans, lam, eps):
    """Evaluating the decrease at a state."""
    def f(h):
        S, L, phi, tR, nR = make(h, kind, nx, net, trans)
        p0 = params(phi, S.net)
        x = S.point()
        T = h.as_tensor
        tx = T(x)
        kw = {"R": tR}
        d = L.lyapunov_derivative(tx, S.txe, lam, eps, **kw)
        ex = [(q, decrease(phi, x, y, S.xe, lam, eps, "ExpLower", nR))
              for q, y in S.succ(x)]
        h.true(isinstance(d, list), "a list")
        got = [h.elems(v).reshape(-1) for v in d]
        h.true(all(len(v) == 1 for v in got), "scalars")
        got = [v[0] for v in got]
        if S.ms is None:
            h.true(len(got) == 1, "one value")
            h.eq(got[0], ex[0][1], "decrease")
        else:
            n = sum(1 for q, _ in ex if _true(h, q))
            h.true(len(got) == n, "one value for each mode")
            for q, v in ex:
                if _true(h, q):
                    h.true(OR([near(v, w, 1e-6) for w in got]),
                           "value of each mode")
            for w in got:
                h.true(OR([AND(q, near(v, w, 1e-6)) for q, v in ex]),
                       "only values of modes")
        h.eq(h.elems(tx), x, "the state is left alone")
        untouched(h, (phi, S.net), p0)
        h.cover("value")
    return f


def _true(h, q):
    """Fork on a condition."""
    return bool(q) if not isinstance(q, bool) else q


for k, nx, net, t, lam, eps in (
        ("auto", 2, "one", "none", .5, .125),
        ("auto_eq", 2, "deep", "sq", .25, .5),
        ("auto_res", 1, "three", "diag", 1.5, 0.),
        ("hybrid", 2, "one", "tall", .5, .25),
        ("hybrid", 1, "single", "none", .75, 1.25),
        ("feedback", 1, "one", "none", .5, .125),
        ("feedback_lin", 2, "one", "sq", .5, .25)):
    R.put(at_state(k, nx, net, t, lam, eps), "value_%s_%d" % (k, nx),
          "state symbolic")


def ask(h, L, S, lam, eps, form, tR, lo, up, **kw):
    l = loader.module("lyapunov")
    a = {}
    if lo is not None:
        a["lyapunov_lower"] = lo
    if up is not None:
        a["lyapunov_upper"] = up
    return L.lyapunov_derivative_as_milp(
        S.txe, lam, eps, getattr(l.ConvergenceEps, form), R=tR, **a, **kw)


def program(kind, nx, net, trans, form, lam, eps, method="IA", lo=None,
            up=None, vt="B", warm=False, xe=None):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        S, L, phi, tR, nR = make(h, kind, nx, net, trans, method)
        if xe is not None:
            S.xe, S.txe = np.array(xe), tt(xe)
        p0 = params(phi, S.net)
        kw = {}
        if vt != "B":
            kw["binary_var_type"] = {"R": g.BINARYRELAX,
                                     "C": GRB.CONTINUOUS}[vt]
        if warm:
            kw["x_warmstart"] = h.as_tensor(S.point("xw"))
        r = ask(h, L, S, lam, eps, form, tR, lo, up, **kw)
        m = r.milp.gurobi_model
        N = sum(NETS[net])
        h.true(m.ModelSense == GRB.MAXIMIZE, "sense")
        h.true(len(r.x) == nx and len(r.x_next) == nx and
               len(r.beta) == len(r.beta_next) == len(r.z) ==
               len(r.z_next) == N, "variables")
        h.true(all(v.vtype == ("B" if vt == "B" else "C")
                   for v in list(r.beta) + list(r.beta_next) + list(r.gamma)),
               "types")
        if vt != "B":
            h.true(not any(v.vtype in "BI" for v in m._vars), "relaxed")
        untouched(h, (phi, S.net), p0)
        h.eq(h.elems(S.txe), S.xe, "the equilibrium is left alone")
        check(h, S, phi, nR, r, m, form, lam, eps, lo, up, vt)
    return f


def check(h, S, phi, nR, r, m, form, lam, eps, lo, up, vt="B", feas=True,
          extra=None, sound=True):
    x = h.reals("x", S.nx, -2, 2)
    V = candidate(phi, x, S.xe, lam, nR)
    suc = S.succ(x)
    which = h.choice("which", len(suc) + 1)
    D = lambda y: decrease(phi, x, y, S.xe, lam, eps, form, nR)  # noqa
    if which < len(suc):
        q, y = suc[which]
        h.assume(isin(x, S.lo, S.up))
        h.assume(S.ok(x))
        h.assume(q)
        h.assume(isin(y, S.lo, S.up))
        if lo is not None:
            h.assume(V >= lo)
        if up is not None:
            h.assume(V <= up)
        if extra is not None:
            h.assume(extra(D(y)))
        h.exists(m, {**dict(zip(r.x, x)), **dict(zip(r.x_next, y))},
                 "every state is feasible")
        h.cover("feasible")
    elif vt == "B":
        val = h.assign(m, dict(zip(r.x, x)), "m")
        o = m._objective.eval(val)
        h.true(isin(x, S.lo, S.up, 1e-6), "only states of the box")
        if sound:
            h.true(OR([AND(True if q is True else q, *[
                near(val[v], w, 1e-5) for v, w in zip(r.x_next, y)],
                near(o, D(y), 1e-4)) for q, y in suc]),
                "objective is the decrease along the step")
        if lo is not None:
            h.true(V >= lo - 1e-5, "lower level")
        if up is not None:
            h.true(V <= up + 1e-5, "upper level")
        h.cover("completion")


FORMS = ("ExpLower", "ExpUpper", "Asymp")
for fm in FORMS:
    for k, nx, net, t, lam, eps in (
            ("auto", 1, "one", "none", .5, .125),
            ("auto_eq", 1, "three", "diag", .25, .375),
            ("auto_eq", 2, "one", "none", .5, .125),
            ("auto_res", 1, "deep", "none", .75, .25),
            ("hybrid", 1, "one", "diag", .5, .125),
            ("hybrid", 2, "one", "none", .5, .25),
            ("feedback", 1, "single", "none", .5, .125),
            ("feedback_lin", 1, "one", "none", .5, .125),
            ("auto", 2, "one", "sq", .5, .125)):
        R.put(program(k, nx, net, t, fm, lam, eps),
              "program_%s_%d_%s_%s_%s" % (k, nx, net, t, fm),
              "state, completion symbolic")
for k, nx, net, t, fm, kw in (
        ("auto_eq", 1, "one", "none", "ExpLower", dict(method="LP")),
        ("auto_eq", 2, "one", "none", "ExpUpper", dict(method="MIP")),
        ("auto", 1, "deep", "none", "Asymp", dict(method="IA_MIP")),
        ("auto_eq", 1, "one", "none", "ExpLower", dict(lo=.125, up=.5)),
        ("auto", 2, "one", "none", "ExpUpper", dict(up=.5)),
        ("hybrid", 1, "one", "none", "Asymp", dict(lo=.125)),
        ("auto_res", 2, "one", "none", "ExpLower", dict(lo=.0625, up=.75)),
        ("auto_eq", 2, "one", "sq", "ExpLower", dict(vt="R")),
        ("hybrid", 1, "one", "none", "ExpUpper", dict(vt="R")),
        ("auto_eq", 1, "deep", "none", "Asymp", dict(vt="C")),
        ("auto_eq", 2, "one", "none", "ExpLower", dict(warm=True)),
        ("auto", 1, "one", "none", "Asymp", dict(warm=True)),
        ("auto", 1, "one", "none", "ExpLower", dict(xe=[-1.])),
        ("auto", 1, "one", "none", "Asymp", dict(xe=[.75]))):
    R.put(program(k, nx, net, t, fm, .5, .125, **kw),
          "program_%s_%d_%s_%s_%s_%s" % (k, nx, net, t, fm, "_".join(
              "%s%s" % (a, b) for a, b in kw.items())),
          "state, completion symbolic")
for k, nx, net, t, fm in (("auto_eq", 2, "deep", "tall", "ExpLower"),
                          ("auto", 2, "three", "sq", "Asymp"),
                          ("feedback", 2, "single", "none", "ExpUpper"),
                          ("hybrid", 2, "deep", "sq", "ExpLower"),
                          ("feedback_lin", 2, "one", "none", "Asymp")):
    R.put(program(k, nx, net, t, fm, .5, .125),
          "program_%s_%d_%s_%s_%s" % (k, nx, net, t, fm),
          "state, completion symbolic", tier="thorough")


def binary(kind, nx, net, form, lam, eps, seed=None):
    """Strengthening on binary variables keeps adversarial states."""
    def f(h):
        S, L, phi, tR, nR = make(h, kind, nx, net, "none", seed=seed)
        r = ask(h, L, S, lam, eps, form, tR, None, None)
        m = r.milp.gurobi_model
        before = [id(c) for c in m._constrs]
        nv = len(m._vars)
        par = {k: m.getParamInfo(k)[2] for k in ("OutputFlag",
                                                 "DualReductions")}
        L.strengthen_lyapunov_derivative_milp_binary(r)
        h.true(len(m._vars) == nv, "no new variables")
        after = [id(c) for c in m._constrs]
        h.true(after[:len(before)] == before, "rows are kept")
        h.true(all(m.getParamInfo(k)[2] == v for k, v in par.items()),
               "parameters restored")
        x = h.reals("x", S.nx, -2, 2)
        (q, y), = S.succ(x)
        D = decrease(phi, x, y, S.xe, lam, eps, form, nR)
        if h.choice("which", 2) == 0:
            h.assume(isin(x, S.lo, S.up))
            h.assume(S.ok(x))
            h.assume(isin(y, S.lo, S.up))
            # a state may only go when a unit changes its state along the
            # step and the program's objective is negative
            h.assume(OR(D >= 0, AND([AND(a > 0, b > 0) for a, b in pairs(
                phi, x, y)]), AND([AND(a < 0, b < 0) for a, b in pairs(
                    phi, x, y)])))
            h.exists(m, {**dict(zip(r.x, x)), **dict(zip(r.x_next, y))},
                     "adversarial states are kept")
            h.cover("feasible")
        else:
            val = h.assign(m, dict(zip(r.x, x)), "m")
            h.true(near(m._objective.eval(val), D, 1e-4), "objective")
            if len(after) == len(before):
                h.cover("nothing to add")
            h.cover("completion")
    return f


for k, nx, net, fm, lam, eps in (("auto_eq", 1, "one", "ExpLower", .5, .125),
                                 ("auto_res", 1, "three", "ExpLower", .5, .25),
                                 ("auto_res", 2, "one", "Asymp", .5, .25),
                                 ("feedback", 1, "one", "ExpLower", .5, .5)):
    R.put(binary(k, nx, net, fm, lam, eps), "binary_%s_%d_%s" % (k, nx, net),
          "state, completion symbolic")
# nets whose unit is on at one end of the step only
for k, eps, seed in (("auto", .5, 256), ("auto", 1., 201), ("auto", 1., 210),
                     ("auto_eq", .5, 216), ("auto_eq", .5, 256),
                     ("auto_eq", 1., 218), ("auto_eq", 1., 221),
                     ("auto_eq", 1., 231), ("auto_eq", 1., 242),
                     ("auto_eq", 1., 240)):
    R.put(binary(k, 1, "single", "ExpLower", .5, eps, seed),
          "binary_%s_%d" % (k, seed), "state, completion symbolic")


def pairs(net, x, y):
    """Inputs of the units at both ends of the step."""
    return [(a, b) for p, q in zip(preacts(net, x), preacts(net, y))
            for a, b in zip(p, q)]


def cuts(kind, nx, net, form, lam, eps, rounds, lo=None, up=None):
    """Strengthening at solutions of the relaxation removes no state."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        l = loader.module("lyapunov")
        S, L, phi, tR, nR = make(h, kind, nx, net, "none")
        p0 = params(phi, S.net)
        kw = {}
        if lo is not None:
            kw = {"lyapunov_lower": lo, "lyapunov_upper": up}
        r = L.strengthen_lyapunov_derivative_as_milp(
            S.txe, lam, eps, getattr(l.ConvergenceEps, form), rounds, R=tR,
            **kw)
        m = r.milp.gurobi_model
        h.true(all(v.vtype == "B" for v in list(r.beta) + list(
            r.beta_next) + list(r.gamma)), "binary variables again")
        h.true(sum(v.vtype == "B" for v in m._vars) >= 2 * sum(NETS[net]) +
               2 * nx, "binary variables again")
        untouched(h, (phi, S.net), p0)
        check(h, S, phi, nR, r, m, form, lam, eps, lo, up)
    return f


for k, nx, net, fm, n in (("auto_eq", 1, "one", "ExpLower", 2),
                          ("auto_eq", 2, "one", "ExpUpper", 1),
                          ("auto_res", 1, "three", "Asymp", 2),
                          ("hybrid", 1, "one", "ExpLower", 2),
                          ("feedback", 1, "single", "ExpLower", 2),
                          ("feedback_lin", 1, "one", "Asymp", 1),
                          ("auto", 1, "deep", "ExpLower", 3)):
    R.put(cuts(k, nx, net, fm, .5, .125, n), "cuts_%s_%d_%s_%d" % (
        k, nx, net, n), "state, completion symbolic")
R.put(cuts("auto_eq", 1, "one", "ExpLower", .5, .125, 1, .0625, .5),
      "cuts_level", "state, completion symbolic")


def past(kind, nx, net, trans, other, form, method, how):
    """The programs of an object which was asked other things before."""
    def ask(h, o, lam, eps, form, R, lo, up):
        S, L, phi = o[:3]
        r = ask_(h, L, S, lam, eps, form, R, lo, up)
        d = L.lyapunov_derivative(.5 * S.txe, S.txe, lam, eps, R=R)
        return r, d

    def args(h):
        return h.real("lam", 0, 2), h.real("eps", .01, .5), h.real("up", 1, 2)
    return history(
        lambda h: make(h, kind, nx, net, trans, method),
        lambda h, o, a: ask(h, o, 1.5, .75, "ExpUpper",
                            transform(other, nx)[0], .125, 3.),
        lambda h, o, a: ask(h, o, a[0], a[1], form, o[3], None, a[2]),
        lambda o: [o[2]] + ([] if o[0].net is None else [o[0].net]), how,
        args)


ask_ = ask
for i, a in enumerate(
        (("auto", 2, "one", "none", "sq", "ExpLower", "IA", "data"),
         ("auto_eq", 1, "deep", "none", "none", "Asymp", "IA", "copy"),
         ("auto_res", 2, "one", "sq", "none", "ExpUpper", "LP", "copy"),
         ("hybrid", 2, "one", "none", "tall", "ExpLower", "IA", "data"),
         ("feedback", 2, "one", "none", "none", "ExpLower", "IA", "data"),
         ("feedback_lin", 1, "single", "none", "none", "ExpLower", "MIP",
          "copy"))):
    R.put(past(*a), "history_%d_%s" % (i, a[0]), "rates and limit symbolic")
for k, nx, net, t, fm in (("auto_eq", 3, "wide", "tall", "ExpLower"),
                          ("feedback", 3, "one", "sq", "ExpUpper"),
                          ("auto", 2, "wide", "tall", "ExpUpper"),
                          ("hybrid", 3, "long", "none", "Asymp"),
                          ("auto_res", 3, "long", "none", "ExpLower"),
                          ("feedback_lin", 2, "wide", "none", "Asymp")):
    R.put(at_state(k, nx, net, t, .5, .25), "value_%s_%d_%s" % (k, nx, net),
          "state symbolic")
    R.put(program(k, nx, net, t, fm, .5, .125), "program_%s_%d_%s_%s" % (
        k, nx, net, fm), "state, completion symbolic",
        tier="thorough" if (nx, net) == (3, "wide") else "quick")
