"""Continuous-time derivative programs."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import AND, OR, near, mknet, preacts, tt, F64
from symx.lyapsys import (System, isin, params, untouched, transform,
                          candidate, nunits, consistent, directional,
                          l1consistent, l1directional, patterns)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-3, Lyapunov networks with one to seven hidden "
          "units in up to three layers and fixed rational weights; network,"
          " closed-loop and piecewise-affine systems on fixed boxes; "
          "square, tall and default transforms; fixed weights and rates; "
          "states, slacks, binary variables and derivatives symbolic; every"
          " combination of one-sided slopes and modes.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact",
               "the program is the list of variables, bounds and rows "
               "recorded by the stand-in for the solver's API"]
NETS = {"one": (2, ), "deep": (2, 1), "single": (1, ), "three": (3, ),
        "wide": (4, 3), "long": (2, 2, 2)}


def make(h, kind, nx, net, trans, method="IA", equ=None, slope=.1):
    l = loader.module("continuous_time_lyapunov")
    mu = loader.module("mip_utils")
    cm = None
    if "/" in method:
        method, cm = method.split("/")
    S = System(h, kind, nx, False, method, equ=equ, cmethod=cm)
    phi = mknet((nx, ) + NETS[net] + (1, ), 91 + len(NETS[net]), slope)
    hyb = kind.startswith("hybrid")
    L = (l.LyapunovContinuousTimeHybridSystem if hyb
         else l.LyapunovContinuousTimeSystem)(S.s, phi)
    L.network_bound_propagate_method = getattr(mu.PropagateBoundsMethod,
                                               method)
    tR, nR = transform(trans, nx)
    return S, L, phi, tR, nR


def derivative(phi, x, d, xe, lam, eps, nR, pat, sgn):
    return directional(phi, pat, d)[0] + lam * l1directional(
        nR, sgn, d) + eps * candidate(phi, x, xe, lam, nR)


def strict(net, x, pat):
    return AND([v > 0 if p else v < 0 for v, p in zip(
        [v for layer in preacts(net, x) for v in layer], pat)])


def l1strict(x, xe, R, sg):
    return AND([v > 0 if p else v < 0 for v, p in zip(
        R.dot(np.asarray(x, dtype=object) - xe), sg)])


def _true(q):
    return bool(q) if not isinstance(q, bool) else q


def at_state(kind, nx, net, trans, lam, eps, tol=0., equ=None):
    """Evaluating the derivative at a state."""
    def f(h):
        S, L, phi, tR, nR = make(h, kind, nx, net, trans, equ=equ)
        p0 = params(phi, S.net)
        x = S.point()
        tx = h.as_tensor(x)
        kw = {"R": tR}
        if tol:
            kw["zero_tol"] = tol
        d = L.lyapunov_derivative(tx, S.txe, lam, eps, **kw)
        if S.ms is not None:
            h.true(isinstance(d, list), "a list")
        got = [w for v in d for w in h.elems(v).reshape(-1)]
        ex = []
        for q, y in S.succ(x):
            for pat in patterns(nunits(phi)):
                c = consistent(phi, x, pat, tol)
                for sg in patterns(nR.shape[0]):
                    ex.append((AND(q, c, l1consistent(x, S.xe, nR, sg, tol)),
                               (y, pat, sg)))
        ex = [e for q, e in ex if _true(q)]
        ex = [derivative(phi, x, y, S.xe, lam, eps, nR, pat, sg)
              for y, pat, sg in ex]
        for v in ex:
            h.true(OR([near(v, w, 1e-6) for w in got]),
                   "every one-sided derivative is listed")
        for w in got:
            h.true(OR([near(v, w, 1e-6) for v in ex]),
                   "only one-sided derivatives are listed")
        h.cover("several" if len(ex) > 1 else "one")
        h.eq(h.elems(tx), x, "the state is left alone")
        untouched(h, (phi, S.net), p0)
    return f


for k, nx, net, t, lam, eps, tol in (
        ("auto", 2, "single", "eye", .5, .125, 0.),
        ("auto_eq", 1, "deep", "diag", .25, .5, 0.),
        ("auto_eq", 2, "one", "sq", .25, .5, 0.),
        ("auto_res", 1, "three", "diag", 1.5, 0., 0.),
        ("auto_res", 2, "single", "tall", .5, .25, 0.),
        ("auto", 1, "one", "none", .5, .25, 0.),
        ("auto", 1, "single", "diag", .5, .25, .0625),
        ("auto_eq", 1, "one", "tall", .5, .25, .125),
        ("pend", 2, "one", "eye", .5, .125, 0.),
        ("pend_lin", 2, "single", "diag", .5, .25, 0.),
        ("hybrid", 2, "single", "none", .5, .25, 0.),
        ("hybrid", 1, "one", "none", .75, 1.25, 0.),
        ("hybrid1", 1, "deep", "eye", .75, 1.25, 0.),
        ("hybrid1", 2, "one", "none", .5, 0., 0.)):
    R.put(at_state(k, nx, net, t, lam, eps, tol), "value_%s_%d_%s_%s%s" % (
        k, nx, net, t, "_tol" if tol else ""), "state symbolic")


def program(kind, nx, net, trans, lam, eps, method="IA", lo=None, up=None,
            vt="B", warm=False, xe=None, form=1, slope=.1):
    def f(h):
        l = loader.module("lyapunov")
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        S, L, phi, tR, nR = make(h, kind, nx, net, trans, method, slope=slope)
        if xe is not None:
            S.xe, S.txe = np.array(xe), tt(xe)
        p0 = params(phi, S.net)
        kw = {}
        if lo is not None:
            kw["lyapunov_lower"] = lo
        if up is not None:
            kw["lyapunov_upper"] = up
        if vt != "B":
            kw["binary_var_type"] = {"R": g.BINARYRELAX,
                                     "C": GRB.CONTINUOUS}[vt]
        if warm:
            kw["x_warmstart"] = h.as_tensor(S.point("xw"))
        fn = (L.lyapunov_derivative_as_milp2 if form == 2
              else L.lyapunov_derivative_as_milp)
        r = fn(S.txe, lam, eps, l.ConvergenceEps.ExpLower, R=tR, **kw)
        m = r.milp.gurobi_model
        N = sum(NETS[net])
        beta = r.beta if S.ms is not None else r.relu_binary
        h.true(m.ModelSense == GRB.MAXIMIZE, "sense")
        h.true(len(r.x) == nx and len(beta) == N, "variables")
        if vt != "B":
            h.true(not any(v.vtype in "BI" for v in m._vars), "relaxed")
        untouched(h, (phi, S.net), p0)
        x = h.reals("x", nx, -2, 4)
        V = candidate(phi, x, S.xe, lam, nR)
        suc = S.succ(x)
        k = nR.shape[0]
        which = h.choice("which", 2 * len(suc) + 1)
        if which > len(suc):
            # some completion everywhere, kinks on the boundary included
            q, y = suc[which - len(suc) - 1]
            h.assume(isin(x, S.lo, S.up))
            h.assume(S.ok(x))
            h.assume(q)
            if lo is not None:
                h.assume(V >= lo)
            if up is not None:
                h.assume(V <= up)
            h.exists(m, dict(zip(r.x, x)), "every state is feasible")
            h.cover("feasible")
        elif which < len(suc):
            q, y = suc[which]
            pat = [h.choice("p%d" % j, 2) for j in range(N)]
            h.assume(isin(x, S.lo, S.up))
            h.assume(S.ok(x))
            h.assume(q)
            # at a kink both sides count unless the kink is on the box's
            # boundary or behind another one
            h.assume(consistent(phi, x, pat))
            h.assume(OR(strict(phi, x, pat), AND(
                S.inside(x), len(NETS[net]) == 1)))
            fx = {**dict(zip(r.x, x)), **dict(zip(beta, pat))}
            if S.ms is None:
                # the choice of the side of the 1-norm has to be possible too
                sg = [h.choice("s%d" % j, 2) for j in range(k)]
                h.assume(l1consistent(x, S.xe, nR, sg))
                h.assume(OR(S.inside(x), l1strict(x, S.xe, nR, sg)))
                fx.update(zip(r.xdot, y))
                # the side of an all-zero row says nothing
                fx.update((v, w) for v, w, a in zip(r.l1_binary, sg, nR)
                          if a.any())
            else:
                fx.update(zip(r.gamma, [int(i == which)
                                        for i in range(len(suc))]))
            if lo is not None:
                h.assume(V >= lo)
            if up is not None:
                h.assume(V <= up)
            h.exists(m, fx, "every state and slope is feasible")
            h.cover("feasible")
        elif vt == "B":
            val = h.assign(m, dict(zip(r.x, x)), "m")
            o = m._objective.eval(val)
            h.true(isin(x, S.lo, S.up, 1e-6), "only states of the box")
            b = [val[v] for v in beta]
            h.true(consistent(phi, x, b, 1e-6), "slopes of the network")
            if S.ms is None:
                sg = [val[v] for v in r.l1_binary]
                h.true(l1consistent(x, S.xe, nR, sg, 1e-6), "signs")
                y = suc[0][1]
                for v, w in zip(r.xdot, y):
                    h.true(near(val[v], w, 1e-5), "derivative of the state")
                h.true(near(o, derivative(phi, x, y, S.xe, lam, eps, nR, b,
                                          sg), 1e-4),
                       "objective is the derivative along the flow")
            else:
                al = []
                for i in range(len(suc)):
                    q, y = suc[i]
                    gm = val[r.gamma[i]]
                    h.true(OR(gm < .5, isin_mode(S, i, x)), "mode")
                    al.append((gm, y))
                h.true(near(sum(g for g, _ in al), 1, 1e-6), "one mode")
                h.true(OR([AND(g > .5, l1consistent(
                    x, S.xe, nR, sg, 1e-6), near(o, derivative(
                        phi, x, y, S.xe, lam, eps, nR, b, sg), 1e-4))
                    for g, y in al for sg in patterns(k)]),
                    "objective is the derivative along the flow")
            if lo is not None:
                h.true(V >= lo - 1e-5, "lower level")
            if up is not None:
                h.true(V <= up + 1e-5, "upper level")
            h.cover("completion")
    return f


def isin_mode(S, i, x):
    _, _, P, q = S.ms[i]
    return AND([v <= b + 1e-6 for v, b in zip(P.dot(x), q)])


T = None


def put(k, nx, net, t, lam=.5, eps=.125, tier=None, **kw):
    nm = "program_%s_%d_%s_%s" % (k, nx, net, t)
    for a, b in kw.items():
        nm += "_%s%s" % (a, b)
    a = {"tier": tier} if tier else {}
    R.put(program(k, nx, net, t, lam, eps, **kw), nm,
          "state, slopes, completion symbolic", **a)


for k, nx, net, t in (("auto", 1, "one", "none"),
                      ("auto_eq", 1, "three", "diag"),
                      ("auto_eq", 2, "one", "none"),
                      ("auto_res", 1, "deep", "none"),
                      ("auto_res", 1, "one", "tall"),
                      ("auto", 2, "one", "sq"),
                      ("auto_eq", 2, "single", "tall"),
                      ("pend", 2, "single", "none"),
                      ("pend_lin", 2, "single", "none")):
    put(k, nx, net, t)
for k, nx, net in (("hybrid", 1, "one"), ("hybrid", 2, "one"),
                   ("hybrid", 2, "single"), ("hybrid1", 2, "one"),
                   ("hybrid1", 1, "deep"), ("hybrid_lin", 2, "one")):
    put(k, nx, net, "none", tier=T)
    put(k, nx, net, "none", form=2, tier=T)
put("hybrid", 1, "one", "eye")
put("hybrid", 1, "one", "eye", form=2)
put("auto_eq", 1, "one", "none", method="LP")
put("auto_eq", 2, "one", "sq", method="LP")
put("auto_res", 1, "one", "tall", method="LP")
put("auto_eq", 1, "deep", "none", method="MIP")
put("auto", 1, "one", "diag", method="MIP")
put("pend", 2, "single", "diag", method="MIP")
put("pend_lin", 2, "single", "none", method="LP")
put("pend", 2, "single", "diag", method="LP/IA")
put("auto_eq", 1, "one", "none", lo=.125, up=.5)
put("auto_res", 2, "single", "none", up=.5)
put("auto", 1, "one", "none", lo=.0625)
put("hybrid", 1, "one", "none", lo=.0625, up=.75)
put("hybrid", 1, "one", "none", lo=.0625, up=.75, form=2)
put("auto_eq", 1, "one", "none", warm=True)
put("hybrid", 1, "one", "none", warm=True)
put("auto_eq", 1, "one", "none", xe=[-1.])
put("auto", 1, "one", "diag", xe=[.75])
put("hybrid", 1, "one", "none", xe=[.75])
put("hybrid", 1, "one", "none", xe=[-1.], form=2)
put("auto_eq", 1, "one", "none", slope=0.)
put("hybrid", 1, "one", "none", slope=0.)
for vt in "RC":
    put("auto_eq", 1, "one", "diag", vt=vt)
    put("pend", 2, "single", "none", vt=vt)
put("auto_eq", 2, "deep", "tall", tier="thorough")
put("auto", 2, "three", "sq", tier="thorough")
put("pend", 2, "single", "none", tier="thorough")
put("hybrid", 2, "deep", "none", tier="thorough")
put("hybrid", 2, "deep", "none", form=2, tier="thorough")
put("auto_eq", 2, "three", "sq", method="LP", tier="thorough")
put("auto_res", 2, "deep", "sq", method="MIP", tier="thorough")


def parts(kind, nx, net, given):
    """The products in the objective, each by itself."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        INF = GRB.INFINITY
        S, L, phi, tR, nR = make(h, kind, nx, net, "none")
        n = len(S.ms)
        mode = h.choice("mode", n)
        A, c = [np.asarray(v, dtype=float) for v in S.ms[mode][:2]]
        x = S.point()
        h.assume(AND([v <= b for v, b in zip(S.ms[mode][2].dot(x),
                                             S.ms[mode][3])]))
        N = sum(NETS[net])
        pat = [h.choice("p%d" % j, 2) for j in range(N)]
        al = [h.choice("a%d" % j, 2) for j in range(nx)]
        milp = g.GurobiTorchMILP(F64)
        s = milp.addVars(n * nx, lb=-INF)
        gam = milp.addVars(n, lb=-INF)
        beta = milp.addVars(N, vtype=GRB.BINARY)
        alpha = milp.addVars(nx, vtype=GRB.BINARY)
        k1 = k2 = {}
        if given:
            # any valid bounds do
            ax = [abs(np.asarray(m[0], dtype=float)).dot([2.] * nx).max()
                  for m in S.ms]
            one = torch.ones(nx, dtype=F64)
            k1 = dict(Aisi_lower=[-b * one for b in ax],
                      Aisi_upper=[b * one for b in ax])
            gm = [np.asarray(m[1], dtype=float) for m in S.ms]
            k2 = dict(gigammai_lower=[tt(np.minimum(v, 0) - .5) for v in gm],
                      gigammai_upper=[tt(np.maximum(v, 0) + .25)
                                      for v in gm])
        r = [L.add_relu_gradient_times_Aisi(milp, s, beta, **k1),
             L.add_relu_gradient_times_gigammai(milp, gam, beta, **k2),
             L.add_sign_state_error_times_Aisi(milp, s, alpha, **k1),
             L.add_sign_state_error_times_gigammai(milp, gam, alpha, **k2)]
        sv = [x[j] if i == mode else 0 for i in range(n) for j in range(nx)]
        gv = [int(i == mode) for i in range(n)]
        fx = {**dict(zip(s, sv)), **dict(zip(gam, gv)),
              **dict(zip(beta, pat)), **dict(zip(alpha, al))}
        m = milp.gurobi_model
        h.exists(m, fx, "every choice is feasible")
        val = h.assign(m, fx, "m")
        sg = np.array([2 * a - 1 for a in al])
        Ax = A.dot(x)
        got = []
        for i, q in enumerate(r):
            h.true(all(len(e) == n for e in q), "one part per mode")
            t = 0
            for k in range(n):
                t = t + sum(h.elems(q[1][k])[j] * val[v]
                            for j, v in enumerate(q[0][k]))
                if len(q) > 2:
                    w = sv[k * nx:(k + 1) * nx] if i == 2 else gv[k:k + 1]
                    t = t + sum(a * b for a, b in zip(h.elems(q[2][k]), w))
            got.append(t)
        for a, b, w in zip(got, (directional(phi, pat, Ax)[0],
                                 directional(phi, pat, c)[0], sg.dot(Ax),
                                 sg.dot(c)),
                           ("network slope, linear part",
                            "network slope, constant part",
                            "signs, linear part", "signs, constant part")):
            h.true(near(a, b, 1e-5), w)
        h.cover("parts")
    return f


for k, nx, net in (("hybrid", 1, "one"), ("hybrid", 2, "one"),
                   ("hybrid", 2, "single"), ("hybrid1", 2, "deep"),
                   ("hybrid_lin", 2, "one")):
    for giv in (False, True):
        R.put(parts(k, nx, net, giv), "parts_%s_%d_%s%s" % (
            k, nx, net, "_given" if giv else ""),
            "state, products symbolic; every slope and sign")


def past(kind, nx, net, trans, other, form, method, how):
    """The programs of an object which was asked other things before."""
    def ask(h, o, lam, eps, R, lo, up):
        l = loader.module("lyapunov")
        S, L, phi = o[:3]
        fn = (L.lyapunov_derivative_as_milp2 if form == 2
              else L.lyapunov_derivative_as_milp)
        r = fn(S.txe, lam, eps, l.ConvergenceEps.ExpLower, R=R,
               lyapunov_lower=lo, lyapunov_upper=up)
        return r, L.lyapunov_derivative(.5 * S.txe + .01, S.txe, lam, eps,
                                        R=R)

    def args(h):
        return h.real("lam", 0, 2), h.real("eps", .01, .5), h.real("up", 1, 2)
    return history(
        lambda h: make(h, kind, nx, net, trans, method),
        lambda h, o, a: ask(h, o, 1.5, .75, transform(other, nx)[0], .125,
                            3.),
        lambda h, o, a: ask(h, o, a[0], a[1], o[3], None, a[2]),
        lambda o: [o[2]] + ([] if o[0].net is None else [o[0].net]), how,
        args)


for i, a in enumerate(
        (("auto", 2, "one", "none", "sq", 1, "IA", "data"),
         ("auto_eq", 1, "deep", "none", "none", 1, "IA", "copy"),
         ("hybrid", 2, "one", "none", "none", 1, "IA", "data"),
         ("hybrid", 2, "one", "none", "none", 2, "IA", "copy"),
         ("pend_lin", 2, "one", "none", "none", 1, "IA", "data"))):
    R.put(past(*a), "history_%d_%s" % (i, a[0]), "rates and limit symbolic")
for k, nx, net, t in (("auto_eq", 3, "one", "none"), ("auto", 2, "wide", "sq"),
                      ("auto_res", 3, "long", "none")):
    put(k, nx, net, t)
for k, nx, net in (("hybrid", 3, "one"), ("hybrid", 2, "wide"),
                   ("hybrid1", 2, "long")):
    T = "thorough" if net == "wide" else None
    put(k, nx, net, "none", tier=T)
    put(k, nx, net, "none", form=2, tier=T)
