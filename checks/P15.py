"""Region-of-attraction programs."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import AND, OR, NOT, near, mknet, tt
from symx.lyapsys import (System, isin, params, untouched, transform,
                          candidate)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-3, Lyapunov networks with one to seven hidden "
          "units in up to three layers and fixed rational weights; network,"
          " piecewise-affine and closed-loop systems on fixed boxes inside "
          "fixed larger boxes; square, tall and default transforms; states,"
          " slacks, binary variables and next states symbolic.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds and levels is exact",
               "the program is the list of variables, bounds and rows "
               "recorded by the stand-in for the solver's API",
               "states outside the system's box have no dynamics, so "
               "re-entering states are those on its boundary"]
NETS = {"one": (2, ), "deep": (2, 1), "single": (1, ), "three": (3, ),
        "wide": (4, 3), "long": (2, 2, 2)}


def make(h, kind, nx, net, trans, method="IA"):
    l = loader.module("lyapunov")
    mu = loader.module("mip_utils")
    S = System(h, kind, nx, True)
    phi = mknet((nx, ) + NETS[net] + (1, ), 91 + len(NETS[net]), .1)
    L = l.LyapunovDiscreteTimeHybridSystem(S.s, phi)
    L.network_bound_propagate_method = getattr(mu.PropagateBoundsMethod,
                                               method)
    tR, nR = transform(trans, nx)
    return S, L, phi, tR, nR


def onface(x, lo, up, t=0):
    return OR([near(v, a, t) if t else v == a for v, b in zip(x, zip(lo, up))
               for a in b])


def boundary(kind, nx, net, trans, lam, method="IA"):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        S, L, phi, tR, nR = make(h, kind, nx, net, trans, method)
        p0 = params(phi, S.net)
        milp, mx = L._construct_milp_for_roa_boundary(lam, tR, S.txe)
        m = milp.gurobi_model
        h.true(m.ModelSense == g.gurobipy.GRB.MINIMIZE, "sense")
        h.true(len(mx) == nx, "variables")
        untouched(h, (phi, S.net), p0)
        h.eq(h.elems(S.txe), S.xe, "the equilibrium is left alone")
        x = h.reals("x", nx, -2, 2)
        V = candidate(phi, x, S.xe, lam, nR)
        if h.choice("which", 2) == 0:
            h.assume(isin(x, S.lo, S.up))
            h.assume(onface(x, S.lo, S.up))
            h.exists(m, dict(zip(mx, x)), "every boundary state is feasible")
            h.cover("feasible")
        else:
            val = h.assign(m, dict(zip(mx, x)), "m")
            h.true(isin(x, S.lo, S.up, 1e-6), "only states of the box")
            h.true(onface(x, S.lo, S.up, 1e-6), "only boundary states")
            h.true(near(m._objective.eval(val), V, 1e-4),
                   "objective is the candidate")
            h.cover("completion")
    return f


for k, nx, net, t, lam, me in (("auto", 1, "one", "none", .5, "IA"),
                               ("auto", 2, "one", "sq", .25, "IA"),
                               ("hybrid", 2, "deep", "none", .75, "IA"),
                               ("feedback", 2, "single", "tall", .5, "IA"),
                               ("auto_eq", 2, "three", "eye", .5, "LP"),
                               ("auto_res", 2, "single", "diag", .5, "MIP"),
                               ("hybrid", 1, "three", "tall", .5, "IA_MIP")):
    R.put(boundary(k, nx, net, t, lam, me), "boundary_%s_%d_%s_%s" % (
        k, nx, net, t), "state, completion symbolic")
for k, nx, net, t, lam, me in (("auto", 3, "one", "none", .5, "IA"),
                               ("auto_eq", 3, "single", "diag", .5, "LP")):
    R.put(boundary(k, nx, net, t, lam, me), "boundary_%s_%d_%s_%s" % (
        k, nx, net, t), "state, completion symbolic", tier="thorough")


def larger(nx, near_=False):
    w = (.5, .25, .75) if near_ else (5, 4, 6)
    from symx.lyapsys import LO, UP
    lo = np.array([LO[i] - w[i] for i in range(nx)])
    up = np.array([UP[i] + w[-1 - i] for i in range(nx)])
    return lo, up


def outside(x, lo, up, t=0):
    return OR([OR(v <= a + t, v >= b - t) for v, a, b in zip(x, lo, up)])


def program(kind, nx, net, trans, lam, inside, tight=False, method="IA",
            tensors=True):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        S, L, phi, tR, nR = make(h, kind, nx, net, trans, method)
        p0 = params(phi, S.net)
        llo, lup = larger(nx, tight)
        a = (tt(llo), tt(lup)) if tensors else (llo.copy(), lup.copy())
        r = L._construct_milp_for_roa(lam, tR, S.txe, *a, inside)
        milp, cur, nxt = r[:3]
        m = milp.gurobi_model
        h.true(m.ModelSense == g.gurobipy.GRB.MINIMIZE, "sense")
        h.true(len(cur) == nx and len(nxt) == nx, "variables")
        untouched(h, (phi, S.net), p0)
        h.eq(h.elems(S.txe), S.xe, "the equilibrium is left alone")
        for v, w in zip(a, (llo, lup)):
            h.eq(h.elems(v), w, "the larger box is left alone")
        h.true(bool(np.all(S.s.x_lo_all == S.lo)) and
               bool(np.all(S.s.x_up_all == S.up)), "the box is left alone")
        x = h.reals("x", nx, -2, 2)
        V = candidate(phi, x, S.xe, lam, nR)
        suc = S.succ(x)
        which = h.choice("which", len(suc) + 1)
        if which < len(suc):
            q, y = suc[which]
            h.assume(isin(x, S.lo, S.up))
            h.assume(S.ok(x))
            h.assume(q)
            if inside:
                h.assume(isin(y, llo, lup))
                h.assume(outside(y, S.lo, S.up))
            else:
                h.assume(onface(x, S.lo, S.up))
                h.assume(isin(y, S.lo, S.up))
            h.exists(m, {**dict(zip(cur, x)), **dict(zip(nxt, y))},
                     "every leaving state is feasible" if inside else
                     "every re-entering state is feasible")
            h.cover("feasible")
        else:
            val = h.assign(m, dict(zip(cur, x)), "m")
            h.true(isin(x, S.lo, S.up, 1e-6), "only states of the box")
            w = [val[v] for v in nxt]
            h.true(OR([AND(True if q is True else q, *[
                near(v, b, 1e-5) for v, b in zip(w, y)]) for q, y in suc]),
                "the step of the system")
            if inside:
                h.true(outside(w, S.lo, S.up, 1e-6), "leaves the box")
                h.true(isin(w, llo, lup, 1e-6), "within the larger box")
            else:
                h.true(onface(x, S.lo, S.up, 1e-6), "only boundary states")
                h.true(isin(w, S.lo, S.up, 1e-6), "enters the box")
            h.true(near(m._objective.eval(val), V, 1e-4),
                   "objective is the candidate")
            h.cover("completion")
    return f


for ins in (True, False):
    for k, nx, net, t, lam, ti, me, te in (
            ("auto", 1, "one", "none", .5, False, "IA", True),
            ("auto", 2, "single", "sq", .25, False, "IA", True),
            ("auto", 2, "one", "none", .25, True, "IA", False),
            ("hybrid", 1, "one", "diag", .5, False, "IA", True),
            ("hybrid", 2, "one", "none", .75, False, "IA", False),
            ("hybrid", 2, "single", "tall", .75, True, "IA", True),
            ("auto_res", 1, "deep", "eye", .5, True, "LP", True),
            ("auto_res", 2, "single", "diag", .5, False, "MIP", True),
            ("feedback", 2, "single", "none", .5, False, "IA", True),
            ("feedback_lin", 2, "single", "none", .5, True, "IA", True)):
        R.put(program(k, nx, net, t, lam, ins, ti, me, te),
              "%s_%s_%d_%s_%s%s" % ("leave" if ins else "enter", k, nx, net,
                                    t, "_tight" if ti else ""),
              "state, completion symbolic")


def search(kind, nx, net, trans, lam, level, tight=False):
    """States below the level stay inside the box."""
    def f(h):
        S, L, phi, tR, nR = make(h, kind, nx, net, trans)
        p0 = params(phi, S.net)
        llo, lup = larger(nx, tight)
        rho = L.compute_region_of_attraction(lam, tR, S.txe, level, tt(llo),
                                             tt(lup))
        rho = float(rho)
        untouched(h, (phi, S.net), p0)
        if level is not None:
            h.true(rho <= level, "at most the level given")
        x = S.point()
        h.assume(S.ok(x))
        V = candidate(phi, x, S.xe, lam, nR)
        suc = S.succ(x)
        q, y = suc[h.choice("which", len(suc))]
        h.assume(q)
        h.assume(isin(y, llo, lup))
        if rho != np.inf:
            h.assume(V < rho - 1e-6)
        h.cover("below")
        h.true(AND([AND(v > a, v < b) for v, a, b in zip(y, S.lo, S.up)]),
               "the step stays inside")
    return f


for k, nx, net, t, lam, lev, ti in (
        ("auto", 1, "one", "none", .5, None, False),
        ("hybrid_lin", 2, "single", "none", 2., .5, False),
        ("auto_res", 2, "single", "none", 2., None, False),
        ("auto_res", 1, "single", "none", 2., None, False),
        ("hybrid_lin", 2, "single", "tall", 1., 1., True),
        ("hybrid_lin", 2, "one", "sq", 2., None, False),
        ("feedback_lin", 2, "single", "none", 2., None, False),
        ("auto_res", 2, "single", "none", 1., .5, False),
        ("auto_eq", 2, "one", "none", 2., 100., True),
        ("hybrid", 1, "one", "diag", .5, None, False),
        ("hybrid", 2, "single", "none", 4., .375, False),
        ("hybrid_lin", 2, "deep", "diag", 2., None, True),
        ("feedback", 1, "single", "none", .5, None, False)):
    R.put(search(k, nx, net, t, lam, lev, ti), "search_%s_%d_%s_%s_%s" % (
        k, nx, net, t, lev), "state symbolic")


def past(kind, nx, net, trans, other, method, how):
    """The programs of an object which was asked other things before."""
    def ask(h, o, lam, R, lo, up, inbox):
        S, L, phi = o[:3]
        return (L._construct_milp_for_roa_boundary(lam, R, S.txe),
                L._construct_milp_for_roa(lam, R, S.txe, lo, up, inbox))

    def args(h):
        return h.real("lam", 0, 2), h.choice("inbox", 2) == 1

    def q(h, o, a):
        S = o[0]
        return ask(h, o, a[0], o[3], tt(S.lo - .25), tt(S.up + .5), a[1])
    return history(
        lambda h: make(h, kind, nx, net, trans, method),
        lambda h, o, a: ask(h, o, 1.5, transform(other, nx)[0],
                            tt(o[0].lo - 1), tt(o[0].up + 1), not a[1]),
        q, lambda o: [o[2]] + ([] if o[0].net is None else [o[0].net]), how,
        args)


for i, a in enumerate((("auto", 2, "one", "none", "sq", "IA", "data"),
                       ("auto_eq", 1, "deep", "none", "none", "LP", "copy"),
                       ("hybrid", 2, "one", "sq", "none", "IA", "copy"),
                       ("feedback", 2, "one", "none", "none", "IA",
                        "data"))):
    R.put(past(*a), "history_%d_%s" % (i, a[0]), "rate symbolic")
for k, nx, net, t in (("feedback", 3, "one", "tall"),
                      ("auto_eq", 2, "wide", "sq"),
                      ("hybrid", 3, "long", "none")):
    R.put(boundary(k, nx, net, t, .5), "boundary_%s_%d_%s_%s" % (
        k, nx, net, t), "state, completion symbolic")
    for ins in (True, False):
        R.put(program(k, nx, net, t, .5, ins, False, "IA", True),
              "%s_%s_%d_%s" % ("leave" if ins else "enter", k, nx, net),
              "state, completion symbolic")
