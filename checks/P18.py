"""Closed-loop feedback systems."""
import importlib.util
import os

import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, mknet, netfun, preacts, pnp, tt,
                      vmax, vmin, rnd, F64)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-3, control dimension 1-2; linear controllers "
          "and networks of up to two hidden layers and four hidden units "
          "with fixed rational weights; network, second-order, hybrid "
          "linear and control-affine plants on fixed boxes; states, "
          "equilibria, control limits (for stepping), slacks, binary "
          "variables, controls and next states symbolic.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact",
               "the program is the list of variables, bounds and rows "
               "recorded by the stand-in for the solver's API",
               "the equilibrium control is within the limits"]
LO, UP = [-1., -.75, -.5], [.75, 1., 1.25]
ULO, UUP = [-.5, -1.], [1., .5]
INF = np.inf


def inbox(h, name, lo, up):
    v = h.reals(name, len(lo), min(lo), max(up))
    h.assume([AND(a <= b, b <= c) for a, b, c in zip(lo, v, up)])
    return v


def controller(kind, nx, nu, seed, slope=.1):
    if kind in ("linear", "linear0"):
        l = torch.nn.Linear(nx, nu, bias=kind == "linear", dtype=F64)
        l.weight = torch.nn.Parameter(tt(rnd(seed, (nu, nx), -1.5, 1.5)))
        if l.bias is not None:
            l.bias = torch.nn.Parameter(tt(rnd(seed + 1, nu)))
        return l
    w = {"net": (2, ), "deep": (2, 1), "net3": (3, )}[kind]
    return mknet((nx, ) + w + (nu, ), seed, slope, scale=1.5)


def ctrl(c, x):
    if isinstance(c, torch.nn.Linear):
        y = pnp(c.weight).dot(np.asarray(x, dtype=object))
        return y if c.bias is None else y + pnp(c.bias)
    return netfun(c, x)


def clamp(v, lo, up):
    return np.array([a if np.isinf(l) else vmax(vmin(a, u), l)
                     for a, l, u in zip(v, lo, up)], dtype=object)


def plant(h, kind, nx, nu, xe, ue, ulo=None, uup=None):
    r = loader.module("relu_system")
    T = h.as_tensor
    a = [F64, tt(LO[:nx]), tt(UP[:nx]),
         tt(ULO[:nu] if ulo is None else ulo),
         tt(UUP[:nu] if uup is None else uup)]
    if kind == "plain":
        net = mknet((nx + nu, 2, nx), 31, .1)
        s = r.ReLUSystem(*a, net)
        return s, lambda x, u: [netfun(net, np.concatenate((x, u)))]
    if kind == "eq":
        net = mknet((nx + nu, 2, nx), 32, 0)
        s = r.ReLUSystemGivenEquilibrium(*a, net, T(xe), T(ue), True)
        return s, lambda x, u: [netfun(net, np.concatenate((x, u))) - netfun(
            net, np.concatenate((xe, ue))) + xe]
    if kind == "residue":
        net = mknet((1 + nu, 1, 1), 33, .1)
        s = r.ReLUSecondOrderResidueSystemGivenEquilibrium(
            *a, net, T(xe[:1]), T(ue), .25, [1])

        def f(x, u):
            v = x[1] + netfun(net, np.concatenate((x[1:], u)))[0] - netfun(
                net, np.concatenate((xe[1:], ue)))[0]
            return [np.array([x[0] + (x[1] + v) * .125, v], dtype=object)]
        return s, f
    if kind == "hybrid":
        m = loader.module("hybrid_linear_system")
        s = m.HybridLinearSystem(nx, nu, F64)
        n = nx + nu
        I = np.eye(n)
        lo = np.array(LO[:nx] + ULO[:nu])
        up = np.array(UP[:nx] + UUP[:nu])
        ms = []
        for i in range(2):
            l, p = lo.copy(), up.copy()
            (p if i == 0 else l)[0] = .25
            P, q = np.vstack((I, -I)), np.concatenate((p, -l))
            A, B = rnd(41 + i, (nx, nx)), rnd(43 + i, (nx, nu))
            c = rnd(45 + i, nx)
            s.add_mode(tt(A), tt(B), tt(c), tt(P), tt(q))
            ms.append((A, B, c, P, q))
        s.ms = ms
        return s, lambda x, u: [A.dot(x) + B.dot(u) + c
                                for A, B, c, P, q in ms]
    raise RuntimeError(kind)


def build(h, pk, ck, nx, nu, lim, xe, ue, method="IA", seed=51):
    m = loader.module("feedback_system")
    mu = loader.module("mip_utils")
    s, f = plant(h, pk, nx, nu, xe, ue)
    c = controller(ck, nx, nu, seed)
    fb = m.FeedbackSystem(s, c, h.as_tensor(xe), h.as_tensor(ue), *lim)
    fb.controller_network_bound_propagate_method = getattr(
        mu.PropagateBoundsMethod, method)
    return fb, s, c, f


LIM = {"fin": ([-.25, -.5], [.5, .25]), "inf": ([-INF] * 2, [INF] * 2),
       "mix": ([-.25, -INF], [.5, INF]), "wide": ([-9., -9.], [9., 9.]),
       "asym": ([-.125, .0], [.75, .125])}


def limits(lim, nu):
    return np.array(LIM[lim][0][:nu]), np.array(LIM[lim][1][:nu])


def law(pk, ck, nx, nu, lim):
    def f(h):
        xe = inbox(h, "x_eq", LO[:nx], UP[:nx])
        if pk == "residue":
            h.assume(xe[1] == 0)
        ue = inbox(h, "u_eq", ULO[:nu], UUP[:nu])
        if lim == "sym":
            lo, up = h.reals("lo", nu, -1, 1), h.reals("up", nu, -1, 1)
            L, U = h.nparray(lo), h.nparray(up)
        else:
            L, U = limits(lim, nu)
            lo, up = L, U
        h.assume([AND(a <= b, b <= c) for a, b, c in zip(lo, ue, up)])
        fb, s, c, step = build(h, pk, ck, nx, nu, (L, U), xe, ue)
        x = inbox(h, "x", LO[:nx], UP[:nx])
        x2 = inbox(h, "z", LO[:nx], UP[:nx])
        tx = h.as_tensor(x)
        want = lambda x: clamp(ctrl(c, x) - ctrl(c, xe) + ue, lo, up) \
            if lim != "sym" else np.array(  # noqa
                [vmax(vmin(a, p), q) for a, q, p in zip(
                    ctrl(c, x) - ctrl(c, xe) + ue, lo, up)], dtype=object)
        w = want(x)
        u = fb.compute_u(tx)
        h.true(tuple(u.shape) == (nu, ), "shape of the control")
        U_ = h.elems(u)
        h.eq(U_, w, "control")
        for v, a, b in zip(U_, lo, up):
            h.true(AND(True if isinstance(a, float) and np.isinf(a)
                       else v >= a, True if isinstance(b, float) and
                       np.isinf(b) else v <= b), "control within its limits")
        h.eq(h.elems(fb.compute_u(h.as_tensor(xe))), ue,
             "control at the equilibrium")
        ub = fb.compute_u(torch.stack((tx, h.as_tensor(x2))))
        h.true(tuple(ub.shape) == (2, nu), "shape of the batch")
        h.eq(h.elems(ub)[0], w, "batch")
        h.eq(h.elems(ub)[1], want(x2), "batch")
        h.eq(h.elems(tx), x, "the state is left alone")
        h.true([id(p) for p in fb.controller_variables()] == [
            id(p) for p in c.parameters()], "controller parameters")
        ys = step(x, w)
        if pk != "hybrid":
            h.eq(h.elems(fb.step_forward(tx)), ys[0], "next state")
            p = fb.possible_dx(tx)
            h.true(len(p) == 1, "successors")
            h.eq(h.elems(p[0]), ys[0], "successor")
            y = fb.step_forward(torch.stack((tx, h.as_tensor(x2))))
            h.eq(h.elems(y)[1], step(x2, want(x2))[0], "batch step")
            h.eq(h.elems(y)[0], ys[0], "batch step")
        else:
            v = np.concatenate((x, w))
            ins = [AND([a <= b for a, b in zip(P.dot(v), q)])
                   for _, _, _, P, q in s.ms]
            h.assume(OR(ins))
            i = 0 if bool(ins[0]) else 1
            h.eq(h.elems(fb.step_forward(tx)), ys[i], "next state")
            p = fb.possible_dx(tx)
            k = [j for j in range(2) if bool(ins[j])]
            h.true(len(p) == len(k), "successors")
            for a, j in zip(p, k):
                h.eq(h.elems(a), ys[j], "successor")
        h.cover("law")
        for j in range(nu):
            if not np.isinf(float(L[j]) if lim != "sym" else 0.):
                if ck != "linear0":
                    continue
                h.cover("upper limit active", w[j] == up[j])
    return f


for k, (pk, ck, nx, nu, lim) in enumerate((
        ("plain", "linear", 1, 1, "sym"), ("plain", "net", 2, 1, "fin"),
        ("eq", "linear0", 2, 1, "fin"), ("eq", "net", 1, 2, "mix"),
        ("residue", "net", 2, 1, "sym"), ("residue", "linear", 2, 1, "inf"),
        ("plain", "deep", 1, 1, "asym"), ("plain", "net", 1, 2, "sym"),
        ("hybrid", "linear", 1, 1, "fin"), ("hybrid", "net", 1, 1, "fin"),
        ("eq", "linear", 2, 2, "mix"))):
    R.put(law(pk, ck, nx, nu, lim), "law_%s_%s_%d_%d_%s" % (
        pk, ck, nx, nu, lim), "state, equilibria%s symbolic" % (
            ", limits" if lim == "sym" else ""))


def program(pk, ck, nx, nu, lim, method="IA", vtype="B", const=False,
            via="direct"):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        if const:
            xe, ue = np.array([.25, 0., .125][:nx]), np.array([.25, .125][:nu])
        else:
            xe = inbox(h, "x_eq", LO[:nx], UP[:nx])
            ue = inbox(h, "u_eq", ULO[:nu], UUP[:nu])
        if pk == "residue" and not const:
            h.assume(xe[1] == 0)
        L, U = limits(lim, nu)
        h.assume([AND(a <= b, b <= c) for a, b, c in zip(L, ue, U)])
        fb, s, c, step = build(h, pk, ck, nx, nu, (L, U), xe, ue, method)
        if pk == "hybrid":
            h.assume([AND(a <= b, b <= d) for a, b, d in zip(
                ULO[:nu], ue, UUP[:nu])])
        x = inbox(h, "x", LO[:nx], UP[:nx])
        w = clamp(ctrl(c, x) - ctrl(c, xe) + ue, L, U)
        # the plant knows controls in its own range only
        h.assume([AND(a <= b, b <= d) for a, b, d in zip(
            ULO[:nu], w, UUP[:nu])])
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(nx, lb=-GRB.INFINITY, name="x")
        yv = mip.addVars(nx, lb=-GRB.INFINITY, name="y")
        vt = {"B": GRB.BINARY, "R": g.BINARYRELAX}[vtype]
        P0 = [pnp(p).copy() for p in c.parameters()]
        if via == "direct":
            uv, fr, cr = fb.add_dynamics_mip_constraint(
                mip, xv, yv, "u", "s", "b", "cs", "cb", vt)
        else:
            d = loader.module("dynamic_system")
            r = d._add_system_constraint(fb, mip, xv, yv, binary_var_type=vt)
            fr, cr = r.forward_dynamics_return, r.controller_mip_cnstr_return
            uv = r.slack[:nu]
            sl = list(uv) + list(fr.slack) + list(cr.slack)
            bn = list(fr.binary) + list(cr.binary)
            h.true(len(r.slack) == len(sl) and all(
                a is b for a, b in zip(r.slack, sl)), "slack variables")
            h.true(len(r.binary) == len(bn) and all(
                a is b for a, b in zip(r.binary, bn)), "binary variables")
            for k in ("x_next_lb_IA", "x_next_ub_IA", "x_next_bound_prog",
                      "x_next_bound_var", "x_var"):
                h.true(getattr(r, k) is getattr(fr, k), "field " + k)
        for a, b in zip(P0, c.parameters()):
            h.eq(a, pnp(b), "the controller is left alone")
        m = mip.gurobi_model
        ys = step(x, w)
        v = np.concatenate((x, w))
        ins = [True] if pk != "hybrid" else [
            AND([a <= b for a, b in zip(P.dot(v), q)])
            for _, _, _, P, q in s.ms]
        lo, up = h.elems(cr.u_lower_bound), h.elems(cr.u_upper_bound)
        h.true(AND([AND(a >= b - 1e-6, a <= d + 1e-6)
                    for a, b, d in zip(w, lo, up)]), "control bounds")
        if ck.startswith("linear"):
            h.true(cr.nn_input is None and not cr.slack and not cr.binary,
                   "linear controller")
        else:
            N = sum(l.out_features for l in c
                    if isinstance(l, torch.nn.Linear)) - nu
            h.true(len(cr.slack) == N and len(cr.binary) == N and len(
                cr.nn_input) == nx and all(a is b for a, b in zip(
                    cr.nn_input, xv)), "controller variables")
            pre = preacts(c, x)
            acts = [l for l in c if not isinstance(l, torch.nn.Linear)]
            z = [e for a, p in zip(acts, pre) for e in netfun([a], p)]
            for q, l, p in (([e for p in pre for e in p], cr.relu_input_lo,
                             cr.relu_input_up),
                            (z, cr.relu_output_lo, cr.relu_output_up)):
                h.true(AND([AND(e >= a - 1e-6, e <= b + 1e-6)
                            for e, a, b in zip(q, h.elems(l), h.elems(p))]),
                       "range of the units")
        if pk == "hybrid":
            i = 0 if bool(ins[0]) else 1
            h.assume(ins[i])
        else:
            i = 0
        fixed = dict(zip(xv, x))
        sol = dict(zip(uv, w))
        sol.update(zip(yv, ys[i]))
        h.exists(m, {**fixed, **sol}, "the closed-loop step is feasible")
        if vtype == "R":
            h.true(not any(e.vtype in "BI" for e in m._vars), "relaxed")
            h.cover("relaxed")
            return
        if method != "IA":
            b = cr.control_bound_prog
            bm = b.prog.gurobi_model
            h.exists(bm, {**dict(zip(b.x_var, x)), **dict(zip(b.u_var, w))},
                     "control bound program contains the control")
            if method == "LP":
                h.true(not any(e.vtype in "BI" for e in bm._vars), "relaxed")
            elif h.choice("what", 2) == 1:
                val = h.assign(bm, dict(zip(b.x_var, x)), "c")
                for e, q in zip(b.u_var, w):
                    h.true(near(val[e], q, 1e-5), "control bound program")
                h.cover("control bound program")
                return
        val = h.assign(m, fixed, "m")
        for e, q in zip(uv, w):
            h.true(near(val[e], q, 1e-5), "the only control")
        if pk == "hybrid":
            t = 1e-5
            h.true(OR([AND([a <= b + t for a, b in zip(P.dot(v), q)], [
                near(val[e], k, t) for e, k in zip(yv, A.dot(x) + B.dot(w)
                                                   + d)])
                for A, B, d, P, q in s.ms]), "next state of some mode")
        else:
            for e, q in zip(yv, ys[0]):
                h.true(near(val[e], q, 1e-4), "the only next state")
        h.cover("completion")
    return f


for a in (("plain", "linear", 1, 1, "fin"), ("plain", "linear0", 2, 1, "inf"),
          ("eq", "linear", 1, 2, "mix"), ("eq", "net", 1, 1, "fin"),
          ("plain", "net", 2, 1, "inf"), ("residue", "net", 2, 1, "fin"),
          ("residue", "linear", 2, 1, "wide"), ("plain", "net", 1, 2, "mix"),
          ("plain", "deep", 1, 1, "fin"), ("hybrid", "linear", 1, 1, "fin"),
          ("hybrid", "net", 1, 1, "fin"), ("eq", "linear", 1, 1, "asym")):
    R.put(program(*a), "program_%s_%s_%d_%d_%s" % a,
          "state, equilibria, completion symbolic")
for a in (("plain", "linear", 1, 1, "fin"), ("plain", "net", 1, 1, "fin"),
          ("eq", "net", 1, 2, "fin")):
    for mth in ("LP", "MIP"):
        R.put(program(*a, method=mth, const=True),
              "program_%s_%s_%d_%d_%s_%s" % (a + (mth, )),
              "state, completion symbolic")
R.put(program("plain", "net", 1, 1, "fin", vtype="R", const=True), "relaxed_net",
      "state, equilibria symbolic")
R.put(program("plain", "linear", 1, 1, "fin", vtype="R", const=True), "relaxed_linear",
      "state, equilibria symbolic")
R.put(program("plain", "net", 1, 1, "fin", via="system"), "system_net",
      "state, equilibria, completion symbolic")
R.put(program("residue", "linear", 2, 1, "fin", via="system"),
      "system_linear", "state, equilibria, completion symbolic")


def strengthen(pk, ck, nx, what):
    """Cuts at the relaxation's optimum never remove the closed-loop step."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        xe, ue = np.array([.25, 0., .125][:nx]), np.array([.25])
        L, U = limits("fin", 1)
        fb, s, c, step = build(h, pk, ck, nx, 1, (L, U), xe, ue)
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(nx, lb=-GRB.INFINITY, name="x")
        yv = mip.addVars(nx, lb=-GRB.INFINITY, name="y")
        uv, fr, cr = fb.add_dynamics_mip_constraint(
            mip, xv, yv, "u", "s", "b", "cs", "cb", g.BINARYRELAX)
        k = rnd(7 + nx + len(what), nx + 1)
        mip.setObjective([tt(k[:nx]), tt(k[nx:])], [yv, uv], 0.,
                         GRB.MAXIMIZE)
        mip.gurobi_model.setParam("OutputFlag", 0)
        mip.gurobi_model.optimize()
        n0 = len(mip.gurobi_model._constrs)
        if what == "both":
            fb.strengthen_dynamics_constraint(mip, fr, cr)
        else:
            fb.strengthen_controller_mip_constraint(
                mip, xv, cr.slack, cr.binary, cr.relu_output_lo,
                cr.relu_output_up)
        mip.gurobi_model.update()
        x = inbox(h, "x", LO[:nx], UP[:nx])
        w = clamp(ctrl(c, x) - ctrl(c, xe) + ue, L, U)
        fixed = dict(zip(xv, x))
        fixed.update(zip(uv, w))
        ys = step(x, w)
        i = h.choice("mode", len(ys)) if len(ys) > 1 else 0
        if len(ys) > 1:
            P, q = s.ms[i][3:]
            z = np.concatenate((x, w))
            h.assume([a <= b for a, b in zip(P.dot(z), q)])
        fixed.update(zip(yv, ys[i]))
        # integrality back on
        for v in list(fr.binary) + list(cr.binary):
            v.vtype = "B"
        h.exists(mip.gurobi_model, fixed, "the step survives the cuts")
        h.cover("cuts")
        if len(mip.gurobi_model._constrs) > n0:
            h.cover("cut added")
    return f


for a in (("plain", "net", 1, "both"), ("plain", "net3", 2, "both"),
          ("eq", "net", 2, "controller"), ("residue", "net3", 2, "both"),
          ("residue", "linear", 2, "both"), ("plain", "deep", 1, "both"),
          ("hybrid", "net", 2, "both"), ("hybrid", "linear", 1, "both")):
    R.put(strengthen(*a), "cuts_%s_%s_%d_%s" % a, "state symbolic")


def past(pk, ck, nx, method, how):
    """The loop after other questions, other programs and other controllers."""
    xe, ue = np.array([.25, 0., .125][:nx]), np.array([.25])

    def ask(h, fb, x, vt, cut=False):
        g = loader.module("gurobi_torch_mip")
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(nx, lb=-g.gurobipy.GRB.INFINITY, name="x")
        yv = mip.addVars(nx, lb=-g.gurobipy.GRB.INFINITY, name="y")
        uv, fr, cr = fb.add_dynamics_mip_constraint(
            mip, xv, yv, "u", "s", "b", "cs", "cb", vt)
        if cut:
            mip.setObjective([tt(rnd(3, nx)), tt([1.])], [yv, uv], 0.,
                             g.gurobipy.GRB.MAXIMIZE)
            mip.gurobi_model.setParam("OutputFlag", 0)
            mip.gurobi_model.optimize()
            fb.strengthen_dynamics_constraint(mip, fr, cr)
        return (mip, uv, fr, cr, fb.compute_u(x),
                fb.possible_dx(x) if pk == "hybrid" else fb.step_forward(x))

    def before(h, fb, a):
        g = loader.module("gurobi_torch_mip")
        ask(h, fb, tt([-.5, .25][:nx]), g.BINARYRELAX, True)

    def query(h, fb, a):
        g = loader.module("gurobi_torch_mip")
        return ask(h, fb, a, g.gurobipy.GRB.BINARY)

    def nets(fb):
        s = fb.forward_system
        r = [fb.controller_network]
        if hasattr(s, "dynamics_relu"):
            r.append(s.dynamics_relu)
        return r
    return history(
        lambda h: build(h, pk, ck, nx, 1, limits("fin", 1), xe, ue,
                        method)[0],
        before, query, nets, how,
        lambda h: h.as_tensor(inbox(h, "x", LO[:nx], UP[:nx])))


for i, a in enumerate((("plain", "net", 1, "IA", "data"),
                       ("eq", "net3", 2, "LP", "copy"),
                       ("residue", "linear", 2, "IA", "data"),
                       ("hybrid", "net", 1, "IA", "copy"))):
    R.put(past(*a), "history_%d_%s_%s" % ((i, ) + a[:2]), "state symbolic")
for a in (("eq", "net3", 3, 2, "fin"), ("plain", "deep", 3, 2, "mix"),
          ("hybrid", "linear", 3, 2, "fin"), ("hybrid", "net", 3, 1, "asym")):
    R.put(law(*a), "law_%s_%s_%d_%d_%s" % a, "states symbolic")
    R.put(program(*a, const=True), "program_%s_%s_%d_%d_%s" % a,
          "state, completion symbolic")
