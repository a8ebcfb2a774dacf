"""Network-based dynamics models."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, mknet, netfun, preacts, pnp, tt,
                      leq, F64)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-4, control dimension 1-2, networks with up to "
          "two hidden layers and seven hidden units with fixed rational "
          "weights, fixed boxes; states, controls, equilibria, tighter "
          "control ranges, slacks, binary variables and next states "
          "symbolic in their boxes.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact",
               "the program is the list of variables, bounds and rows "
               "recorded by the stand-in for the solver's API"]
LO = [-1., -.75, -.5]
UP = [.75, 1., 1.25]
ULO, UUP = [-.5, -1.], [1., .5]


def inbox(h, name, lo, up):
    v = h.reals(name, len(lo), min(lo), max(up))
    h.assume([AND(a <= b, b <= c) for a, b, c in zip(lo, v, up)])
    return v


def params(net):
    return [pnp(p).copy() for p in net.parameters()]


class Sys:
    """A model, its inputs and the documented next state."""
    def __init__(self, h, kind, nx, nu, widths, seed, slope, discrete, method,
                 last=None, bias=True, fixed=False):
        self.h, self.nx, self.nu = h, nx, nu
        r = self.r = loader.module("relu_system")
        mu = loader.module("mip_utils")
        self.g = loader.module("gurobi_torch_mip")
        ind = list(range(nx))
        self.dt = .25
        nout = nx
        if kind in ("second", "residue"):
            nout = nx // 2
        if kind == "residue":
            ind = ind[-1:] if nx == 2 else ind[1:]
        net = self.net = mknet((len(ind) + nu, ) + tuple(widths) + (nout, ),
                               seed, slope, bias)
        self.p0 = params(net)
        lo, up = LO[:nx], UP[:nx]
        if nx == 4:
            lo, up = LO + [-1.], UP + [1.]
        self.lo, self.up, self.ulo, self.uup = lo, up, ULO[:nu], UUP[:nu]
        M = getattr(mu.PropagateBoundsMethod, method)
        N = lambda v: netfun(net, v)  # noqa
        cat = lambda *a: np.concatenate([np.asarray(  # noqa
            e, dtype=object) for e in a])
        xe = ue = None
        if kind not in ("auto", "plain"):
            if fixed:
                xe = np.array([.125, -.25, 0., 0.][:nx])
                if kind in ("second", "residue"):
                    xe[nx // 2:] = 0
            elif kind in ("second", "residue"):
                q = inbox(h, "q_eq", lo[:nx // 2], up[:nx // 2])
                xe = cat(q, np.zeros(nx // 2))
            else:
                xe = inbox(h, "x_eq", lo, up)
            if nu and fixed:
                ue = np.full(nu, .125)
            elif nu:
                ue = inbox(h, "u_eq", self.ulo, self.uup)
        a = [F64, tt(lo), tt(up)]
        b = [tt(self.ulo), tt(self.uup)]
        T = h.as_tensor
        if kind == "auto":
            self.s = r.AutonomousReLUSystem(*a, net, M)
            self.f = lambda x, u: N(x)
        elif kind == "auto_eq":
            self.s = r.AutonomousReLUSystemGivenEquilibrium(
                *a, net, T(xe), discrete, M)
            self.f = lambda x, u: N(x) - N(xe) + (xe if discrete else 0)
        elif kind == "auto_res":
            self.s = r.AutonomousResidualReLUSystemGivenEquilibrium(
                *a, net, T(xe), discrete, M)
            self.f = lambda x, u: N(x) - N(xe) + (x if discrete else 0)
        elif kind == "plain":
            self.s = r.ReLUSystem(*a, *b, net)
            self.f = lambda x, u: N(cat(x, u))
        elif kind == "eq":
            self.s = r.ReLUSystemGivenEquilibrium(
                *a, *b, net, T(xe), T(ue), discrete)
            self.f = lambda x, u: N(cat(x, u)) - N(cat(xe, ue)) + (
                xe if discrete else 0)
        else:
            n = nx // 2
            qe = T(xe[:n])
            if kind == "second":
                self.s = r.ReLUSecondOrderSystemGivenEquilibrium(
                    *a, *b, net, qe, T(ue), self.dt)
                vn = lambda x, u: N(cat(x, u)) - N(cat(xe, ue))  # noqa
            else:
                self.s = r.ReLUSecondOrderResidueSystemGivenEquilibrium(
                    *a, *b, net, qe, T(ue), self.dt, ind)
                self.s.network_bound_propagate_method = M
                vn = lambda x, u: x[n:] + N(cat(x[ind], u)) - N(  # noqa
                    cat(xe[ind], ue))

            def f(x, u):
                v = vn(x, u)
                return cat(x[:n] + (x[n:] + v) * (self.dt / 2), v)
            self.f = f
        self.ind = ind
        self.xe, self.ue, self.discrete = xe, ue, discrete
        self.kind = kind

    def step(self, x, u=None):
        T = self.h.as_tensor
        a = (T(x), ) if not self.nu else (T(x), T(u))
        return self.s.step_forward(*a)


MODELS = {
    # kind, nx, nu, hidden, seed, slope, discrete
    "auto": ("auto", 2, 0, (2, ), 1, .1, True),
    "auto1": ("auto", 1, 0, (2, ), 2, 0, True),
    "auto_deep": ("auto", 2, 0, (2, 2), 3, .1, True),
    "auto_eq": ("auto_eq", 2, 0, (2, ), 4, .1, True),
    "auto_eq_cont": ("auto_eq", 2, 0, (2, ), 5, 0, False),
    "auto_eq1": ("auto_eq", 1, 0, (2, ), 6, .1, True),
    "auto_eq1_cont": ("auto_eq", 1, 0, (2, ), 6, .1, False),
    "auto_res": ("auto_res", 2, 0, (2, ), 7, .1, True),
    "auto_res_cont": ("auto_res", 2, 0, (2, ), 8, 0, False),
    "auto_res1": ("auto_res", 1, 0, (2, ), 9, .1, True),
    "auto_res1_cont": ("auto_res", 1, 0, (2, ), 9, .1, False),
    "plain": ("plain", 2, 1, (3, ), 10, .1, True),
    "plain1": ("plain", 1, 1, (2, ), 11, 0, True),
    "plain1_2": ("plain", 1, 2, (2, ), 12, .1, True),
    "eq": ("eq", 2, 1, (2, ), 13, .1, True),
    "eq_cont": ("eq", 2, 1, (2, ), 14, 0, False),
    "eq1": ("eq", 1, 1, (2, ), 15, .1, True),
    "eq1_2": ("eq", 1, 2, (2, ), 16, .1, True),
    "second": ("second", 2, 1, (2, ), 17, .1, True),
    "second4": ("second", 4, 1, (2, ), 18, 0, True),
    "residue": ("residue", 2, 1, (2, ), 19, .1, True),
    "residue4": ("residue", 4, 1, (2, ), 20, 0, True),
    "residue_2u": ("residue", 2, 2, (2, ), 21, .1, True),
    "auto3": ("auto", 3, 0, (4, 3), 22, .1, True),
    "auto_eq3": ("auto_eq", 3, 0, (3, 2), 23, 0, True),
    "auto_res3": ("auto_res", 3, 0, (4, ), 24, .1, True),
    "plain3_2": ("plain", 3, 2, (4, ), 25, .1, True),
    "eq3_2": ("eq", 3, 2, (3, 2), 26, 0, True),
    "second4_2": ("second", 4, 2, (3, 2), 27, .1, True),
    "residue4_2": ("residue", 4, 2, (3, 2), 28, .1, True),
}


def point(h, S, tag=""):
    x = inbox(h, "x" + tag, S.lo, S.up)
    u = inbox(h, "u" + tag, S.ulo, S.uup) if S.nu else None
    return x, u


def stepping(name, bias):
    def f(h):
        S = Sys(h, *MODELS[name], "IA", bias=bias)
        x, u = point(h, S)
        w = S.f(x, u)
        y = S.step(x, u)
        h.true(tuple(y.shape) == (S.nx, ), "shape of the next state")
        h.eq(h.elems(y), w, "next state")
        T = h.as_tensor
        a = (T(x), ) if not S.nu else (T(x), T(u))
        p = S.s.possible_dx(*a)
        h.true(len(p) == 1, "one successor")
        h.eq(h.elems(p[0]), w, "successor")
        # batch
        x2, u2 = point(h, S, "2")
        b = (torch.stack((T(x), T(x2))), )
        if S.nu:
            b = b + (torch.stack((T(u), T(u2))), )
        Y = S.s.step_forward(*b)
        h.true(tuple(Y.shape) == (2, S.nx), "shape of the batch")
        h.eq(h.elems(Y)[0], w, "batch")
        h.eq(h.elems(Y)[1], S.f(x2, u2), "batch")
        h.eq(S.s.x_lo_all, np.array(S.lo), "lower limits")
        h.eq(S.s.x_up_all, np.array(S.up), "upper limits")
        if S.xe is not None:
            y = h.elems(S.step(S.xe, S.ue))
            h.eq(y, S.xe if S.discrete else S.xe * 0, "fixed point")
        for v, q in zip((x, u), a):
            h.eq(h.elems(q), v, "the inputs are left alone")
        for p, q in zip(S.p0, params(S.net)):
            h.eq(p, q, "the network is left alone")
        h.cover("step")
    return f


for n in MODELS:
    R.put(stepping(n, n not in ("eq1_2", "auto_res")), "step_" + n,
          "states, controls, equilibria symbolic")


def dyn_call(S, mip, xv, yv, uv, vt, kw):
    if S.nu:
        return S.s.add_dynamics_constraint(mip, xv, yv, uv, "s", "b",
                                           binary_var_type=vt, **kw)
    if S.kind == "auto" or S.via == "direct":
        return S.s.add_dynamics_constraint(mip, xv, yv, "s", "b", vt)
    d = loader.module("dynamic_system")
    return d._add_system_constraint(S.s, mip, xv, yv, binary_var_type=vt)


def program(name, method, tight, vtype="B", via="direct", bias=True):
    def f(h):
        S = Sys(h, *MODELS[name], method, bias=bias)
        S.via = via
        g = S.g
        GRB = g.gurobipy.GRB
        INF = GRB.INFINITY
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(S.nx, lb=-INF, name="x")
        uv = mip.addVars(S.nu, lb=-INF, name="u") if S.nu else []
        yv = mip.addVars(S.nx, lb=-INF, name="y")
        x, u = point(h, S)
        kw = {}
        if tight:
            l = [-.25, -.5][:S.nu]
            p = [2., .25][:S.nu]
            if "lo" in tight:
                kw["additional_u_lo"] = tt(l)
                h.assume([a >= b for a, b in zip(u, l)])
            if "up" in tight:
                p = [.5, .25][:S.nu]
                kw["additional_u_up"] = tt(p)
                h.assume([a <= b for a, b in zip(u, p)])
        vt = {"B": GRB.BINARY, "R": g.BINARYRELAX,
              "C": GRB.CONTINUOUS}[vtype]
        r = dyn_call(S, mip, xv, yv, uv, vt, kw)
        N = sum(l.out_features for l in S.net
                if isinstance(l, torch.nn.Linear)) - S.net[-1].out_features
        m = mip.gurobi_model
        h.true(len(r.slack) == N and len(r.binary) == N, "new variables")
        h.true(all(v.vtype == ("B" if vtype == "B" else "C")
                   for v in r.binary), "type of the binary variables")
        w = S.f(x, u)
        fixed = dict(zip(xv, x))
        if S.nu:
            fixed.update(zip(uv, u))
        h.exists(m, {**fixed, **dict(zip(yv, w))},
                 "the stepped next state is feasible")
        for p, q in zip(S.p0, params(S.net)):
            h.eq(p, q, "the network is left alone")
        ni = [xv[i] for i in S.ind] + list(uv)
        h.true(len(r.nn_input) == len(ni) and all(
            a is b for a, b in zip(r.nn_input, ni)), "network inputs")
        nin = np.concatenate((x[S.ind], u)) if S.nu else x
        for v, a, b in zip(nin, h.elems(r.nn_input_lo),
                           h.elems(r.nn_input_up)):
            h.true(AND(v >= a, v <= b), "network input range")
        pre = preacts(S.net, nin)
        acts = [l for l in S.net if not isinstance(l, torch.nn.Linear)]
        z = [v for a, p in zip(acts, pre) for v in netfun([a], p)]
        for q, lo, up, msg in (
                ([v for p in pre for v in p], r.relu_input_lo,
                 r.relu_input_up, "unit inputs"),
                (z, r.relu_output_lo, r.relu_output_up, "unit outputs"),
                (netfun(S.net, nin), r.nn_output_lo, r.nn_output_up,
                 "outputs")):
            if lo is None:
                continue
            L, U = h.elems(lo).reshape(-1), h.elems(up).reshape(-1)
            h.true(len(L) == len(q) and len(U) == len(q), msg + ": number")
            h.true(AND([AND(v >= a - 1e-6, v <= b + 1e-6)
                        for v, a, b in zip(q, L, U)]), "range of " + msg)
        if not S.nu:
            ia = method in ("IA", "IA_MIP")
            h.true((r.x_next_lb_IA is not None) == ia and (
                r.x_next_ub_IA is not None) == ia, "range of the next state")
            if ia:
                L, U = h.elems(r.x_next_lb_IA), h.elems(r.x_next_ub_IA)
                h.true(len(L) == S.nx and len(U) == S.nx, "range length")
                h.true(AND([AND(v >= a - 1e-6, v <= b + 1e-6)
                            for v, a, b in zip(w, L, U)]),
                       "range of the next state")
            if method != "IA":
                b = r.x_next_bound_prog
                h.exists(b.gurobi_model, {
                    **dict(zip(r.x_var, x)),
                    **dict(zip(r.x_next_bound_var, w))},
                    "bound program contains the step")
                if method == "LP":
                    h.true(not any(v.vtype in "BI"
                                   for v in b.gurobi_model._vars), "relaxed")
                else:
                    val = h.assign(b.gurobi_model, dict(zip(r.x_var, x)),
                                   "bp")
                    for v, q in zip(r.x_next_bound_var, w):
                        h.true(near(val[v], q, 1e-5),
                               "bound program: next state")
                    h.cover("bound program")
                    return
        if vtype == "B":
            val = h.assign(m, fixed, "m")
            for v, q in zip(yv, w):
                h.true(near(val[v], q, 1e-5), "the only next state")
            h.cover("completion")
    return f


for n, (k, nx, nu, *_) in MODELS.items():
    big = nx == 4 or n in ("auto_deep", "plain")
    R.put(program(n, "IA", ""), "program_" + n,
          "state, control, equilibrium, completion symbolic")
    if nu:
        R.put(program(n, "IA", "lo up"), "tight_" + n,
              "state, control, equilibrium, completion symbolic",
              tier="thorough" if n in ("plain", "second4", "eq") else "quick")
for n in ("plain1", "eq1", "residue_2u", "second"):
    R.put(program(n, "IA", "lo"), "tight_lo_" + n,
          "state, control, equilibrium, completion symbolic")
    R.put(program(n, "IA", "up"), "tight_up_" + n,
          "state, control, equilibrium, completion symbolic")
for n in ("auto", "auto1", "auto_eq", "auto_eq1_cont", "auto_res",
          "auto_res1_cont", "auto_res1"):
    for mth in ("LP", "MIP", "IA_MIP"):
        R.put(program(n, mth, "", via="system" if mth == "MIP" else "direct"),
              "program_%s_%s" % (n, mth),
              "state, equilibrium, completion symbolic")
for n in ("auto_eq", "eq", "residue"):
    for v in "RC":
        R.put(program(n, "IA", "", v), "program_%s_vtype%s" % (n, v),
              "state, control, equilibrium symbolic")
R.put(program("residue", "MIP", "lo up"), "tight_residue_MIP",
      "state, control, equilibrium, completion symbolic")
R.put(program("auto_eq", "IA", "", bias=False), "program_auto_eq_nobias",
      "state, equilibrium, completion symbolic")
R.put(program("second", "IA", "", bias=False), "program_second_nobias",
      "state, equilibrium, completion symbolic")


def rows(name, limits, bias=True):
    """The constraint set by itself, with and without given control limits."""
    def f(h):
        S = Sys(h, *MODELS[name], "IA", bias=bias)
        g = S.g
        x, u = point(h, S)
        a = ()
        if limits:
            lo, up = [-.25, -.5][:S.nu], [.5, .25][:S.nu]
            a = (tt(lo) if "lo" in limits else None,
                 tt(up) if "up" in limits else None)
            h.assume([v >= b for v, b in zip(u, lo) if a[0] is not None])
            h.assume([v <= b for v, b in zip(u, up) if a[1] is not None])
        r = S.s.mixed_integer_constraints(*a)
        mip = g.GurobiTorchMILP(F64)
        INF = g.gurobipy.GRB.INFINITY
        iv = mip.addVars(S.nx + S.nu, lb=-INF, name="i")
        yv = mip.addVars(S.nx, lb=-INF, name="y")
        mip.add_mixed_integer_linear_constraints(
            r, iv, yv, "s", "b", "", "", "", g.gurobipy.GRB.BINARY)
        w = S.f(x, u)
        fixed = dict(zip(iv, x if u is None else np.concatenate((x, u))))
        h.exists(mip.gurobi_model, {**fixed, **dict(zip(yv, w))},
                 "the stepped next state is in the set")
        val = h.assign(mip.gurobi_model, fixed, "m")
        for v, q in zip(yv, w):
            h.true(near(val[v], q, 1e-5), "the only next state")
        for p, q in zip(S.p0, params(S.net)):
            h.eq(p, q, "the network is left alone")
        h.cover("set")
    return f


for n, (k, nx, nu, *_) in MODELS.items():
    if k == "residue":
        continue            # has no such method
    R.put(rows(n, ""), "rows_" + n, "state, control, completion symbolic",
          tier="thorough" if n in ("auto_deep", "plain") else "quick")
for n in ("plain1", "eq1", "second"):
    for lim in ("lo", "up", "lo up"):
        R.put(rows(n, lim), "rows_%s_%s" % (n, lim.replace(" ", "_")),
              "state, control, completion symbolic")


def forward(method, given, vtype="B"):
    """The helper shared by models with their own constraint set."""
    def f(h):
        S = Sys(h, *MODELS["eq1"], "IA")
        r, g = S.r, S.g
        mu = loader.module("mip_utils")
        GRB = g.gurobipy.GRB
        INF = GRB.INFINITY
        s = S.s
        s.network_bound_propagate_method = getattr(
            mu.PropagateBoundsMethod, method)
        asked = []
        own = s.mixed_integer_constraints
        xlo, xup = tt([-3.]), tt([4.])

        def mic(lo=None, up=None):
            asked.append((lo, up))
            c = own(lo, up)
            c.x_next_lb, c.x_next_ub = xlo, xup
            return c
        s.mixed_integer_constraints = mic
        x, u = point(h, S)
        lo, up = tt([-.25]), tt([.5])
        h.assume([u[0] >= -.25, u[0] <= .5])
        mip = g.GurobiTorchMILP(F64)
        xv = mip.addVars(1, lb=-INF, name="x")
        uv = mip.addVars(1, lb=-INF, name="u")
        yv = mip.addVars(1, lb=-INF, name="y")
        prog = None
        if given:
            # the control is restricted to twice the state
            bp = g.GurobiTorchMIP(F64)
            bx, bu = bp.addVars(1, lb=-INF), bp.addVars(1, lb=-INF)
            bp.addLConstr([torch.tensor([2.], dtype=F64),
                           torch.tensor([-1.], dtype=F64)], [bx, bu],
                          sense=GRB.EQUAL, rhs=0.)
            prog = r.ControlBoundProg(bp, bx, bu)
            h.assume([u[0] >= 2 * x[0], u[0] <= 2 * x[0]])
        vt = GRB.BINARY if vtype == "B" else g.BINARYRELAX
        q = r._add_forward_dynamics_mip_constraints(
            s, mip, xv, yv, uv, "s", "b", lo, up, vt, prog)
        h.true(len(asked) == 1 and asked[0][0] is lo and asked[0][1] is up,
               "control limits")
        w = S.f(x, u)
        fixed = {xv[0]: x[0], uv[0]: u[0]}
        h.exists(mip.gurobi_model, {**fixed, yv[0]: w[0]}, "feasible")
        if vtype == "B":
            val = h.assign(mip.gurobi_model, fixed, "m")
            h.true(near(val[yv[0]], w[0], 1e-5), "the only next state")
        h.true(all(v.vtype == ("B" if vtype == "B" else "C")
                   for v in q.binary), "type of the binary variables")
        h.true([a is b for a, b in zip(q.nn_input, [xv[0], uv[0]])] ==
               [True] * 2, "network inputs")
        if method == "IA":
            h.true(q.x_next_lb_IA is xlo and q.x_next_ub_IA is xup,
                   "range of the next state")
            h.true(q.x_next_bound_prog is None, "no bound program")
            return
        b = q.x_next_bound_prog
        h.true(q.x_next_lb_IA is None and q.x_next_ub_IA is None, "no range")
        h.true((not given) or b is prog.prog and q.x_var is prog.x_var,
               "the given program is extended")
        h.true(len(q.x_var) == 1 and len(q.x_next_bound_var) == 1,
               "variables of the bound program")
        bf = {q.x_var[0]: x[0]}
        h.exists(b.gurobi_model, {**bf, q.x_next_bound_var[0]: w[0]},
                 "bound program contains the step")
        ints = [v for v in b.gurobi_model._vars if v.vtype in "BI"]
        h.true(bool(ints) == (method != "LP"), "relaxed only for LP")
        if method != "LP":
            val = h.assign(b.gurobi_model, bf, "bp")
            T = h.as_tensor
            k = [v for v in b.gurobi_model._vars
                 if not any(v is e for e in list(q.x_var) + list(
                     q.x_next_bound_var))]
            cu = val[k[0]]
            h.true(AND(cu >= -.25 - 1e-6, cu <= .5 + 1e-6),
                   "control of the bound program")
            wb = S.f(x, np.array([cu], dtype=object))
            h.true(near(val[q.x_next_bound_var[0]], wb[0], 1e-5),
                   "bound program: next state")
            h.cover("bound program")
    return f


for mth in ("IA", "LP", "MIP"):
    for giv in (False, True):
        R.put(forward(mth, giv), "forward_%s_%s" % (
            mth, "given" if giv else "own"),
            "state, control, completion symbolic")
R.put(forward("LP", False, "R"), "forward_LP_relaxed",
      "state, control symbolic")


def past(name, method, how):
    """Steps and programs of a model which was asked other things before."""
    nx, nu = MODELS[name][1:3]

    def args(h):
        lo, up = LO[:nx], UP[:nx]
        if nx == 4:
            lo, up = LO + [-1.], UP + [1.]
        return (inbox(h, "x", lo, up),
                inbox(h, "u", ULO[:nu], UUP[:nu]) if nu else None)

    def mk(h):
        S = Sys(h, *MODELS[name], method, fixed=True)
        S.via = "system"
        return S

    def ask(h, S, x, u, vtype, kw):
        GRB = S.g.gurobipy.GRB
        mip = S.g.GurobiTorchMILP(F64)
        xv = mip.addVars(S.nx, lb=-GRB.INFINITY, name="x")
        uv = mip.addVars(S.nu, lb=-GRB.INFINITY, name="u") if S.nu else []
        yv = mip.addVars(S.nx, lb=-GRB.INFINITY, name="y")
        vt = S.g.BINARYRELAX if vtype == "R" else GRB.BINARY
        r = dyn_call(S, mip, xv, yv, uv, vt, kw)
        return (S.step(x, u), r, mip,
                S.s.mixed_integer_constraints(**{
                    k[11:]: v for k, v in kw.items()}) if S.nu and
                S.kind != "residue" or not S.nu else None)

    def before(h, S, a):
        t = .5 * np.array(S.lo) + .25 * np.array(S.up)
        u = np.zeros(S.nu)
        kw = {}
        if S.nu:
            kw = dict(additional_u_lo=tt([-.25] * S.nu),
                      additional_u_up=tt([.125] * S.nu))
        ask(h, S, t, u, "R", kw)
    return history(mk, before,
                   lambda h, S, a: ask(h, S, a[0], a[1], "B", {}),
                   lambda S: [S.net], how, args)


for i, n in enumerate(MODELS):
    if n in ("auto", "auto_eq1", "auto_res", "plain", "eq", "second",
             "residue", "auto_deep"):
        R.put(past(n, "LP" if n == "auto_deep" else "IA",
                   ("data", "copy")[i % 2]), "history_" + n,
              "state and control symbolic")
