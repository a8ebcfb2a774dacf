"""Control-affine systems."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import (AND, OR, IMPLIES, near, mknet, netfun, preacts, pnp, tt,
                      vmax, vmin, rnd, mic_conds, mic_out, patterns, F64)

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-4 (2 or 4 for second-order systems), control "
          "dimension 1-2; linear systems with symbolic matrices; networks "
          "with up to two hidden layers and three hidden units with fixed "
          "rational weights; boxes symbolic for interval arithmetic, fixed "
          "for the optimisation-based bounds; states, controls, limits, "
          "slacks and binary variables symbolic.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver used for bounds is exact"]
LO, UP = [-1., -.75, -.5, -1.], [.75, 1., 1.25, .5]
ULO, UUP = [-.5, -1.], [1., .5]


def inbox(h, name, lo, up):
    lo, up = np.asarray(lo, dtype=object), np.asarray(up, dtype=object)
    v = h.reals(name, len(lo), -2, 2)
    h.assume([AND(a <= b, b <= c) for a, b, c in zip(lo, v, up)])
    return v


def box(h, n, sym, name="b"):
    if not sym:
        return tt(LO[:n]), tt(UP[:n]), np.array(LO[:n]), np.array(UP[:n])
    lo, up = h.tensor(name + "lo", n, -2, 2), h.tensor(name + "up", n, -2, 2)
    l, p = h.elems(lo).copy(), h.elems(up).copy()
    h.assume([a <= b for a, b in zip(l, p)])
    return lo, up, l, p


def clamp(u, lo, up):
    return np.array([vmax(vmin(a, p), l) for a, l, p in zip(u, lo, up)],
                    dtype=object)


class Sys:
    """The system, its drift a(x) and input matrix as functions."""
    def __init__(self, h, kind, n, m, method, symbox, ulim, fixed=False):
        c = loader.module("control_affine_system")
        mu = loader.module("mip_utils")
        self.n, self.m = n, m
        lo, up, self.l, self.p = box(h, n, symbox)
        if ulim:
            ulo, uup, self.ul, self.up = box(h, m, True, "u")
        else:
            ulo, uup = tt(ULO[:m]), tt(UUP[:m])
            self.ul, self.up = np.array(ULO[:m]), np.array(UUP[:m])
        self.t = (lo, up, ulo, uup)
        M = getattr(mu.PropagateBoundsMethod, method)
        self.nets = ()
        k = n // 2
        z = lambda r: np.zeros(r)  # noqa
        if kind == "linear":
            A, B = h.tensor("A", (n, n), -2, 2), h.tensor("B", (n, m), -2, 2)
            self.s = c.LinearSystem(A, B, *self.t)
            a, b = h.elems(A).copy(), h.elems(B).copy()
            self.f = lambda x: a.dot(x)
            self.G = lambda x: b
            self.keep = [(A, a), (B, b)]
        elif kind.startswith("net"):
            w = {"net": (2, ), "net_deep": (1, 1), "net_nobias": (2, )}[kind]
            bias = kind != "net_nobias"
            pa = mknet((n, ) + w + (k, ), 11, .1, bias)
            pb = mknet((n, ) + w[:1] + (k * m, ), 12, 0, bias)
            self.nets = (pa, pb)
            self.s = c.ReluSecondOrderControlAffineSystem(
                *self.t, pa, pb, M)
            self.f = lambda x: np.concatenate((x[k:], netfun(pa, x)))
            self.G = lambda x: np.concatenate((
                z(k * m), netfun(pb, x))).reshape(n, m)
            self.keep = []
        else:
            # second order with (parts of) affine a and b
            g = loader.module("gurobi_torch_mip")
            a1, a0 = h.tensor("a1", (k, n), -2, 2), h.tensor("a0", k, -2, 2)
            b1 = h.tensor("b1", (k * m, n), -2, 2)
            b0 = h.tensor("b0", k * m, -2, 2)
            if fixed:
                a1, b1 = tt(rnd(41, (k, n))), tt(rnd(42, (k * m, n)))
            parts = kind.split("_")[1]
            ib = mu.compute_range_by_IA

            class S(c.SecondOrderControlAffineSystem):
                def a(s, x):
                    return torch.zeros(k, dtype=F64) + (
                        a1 @ x if "A" in parts else 0.) + (
                        a0 if "a" in parts else 0.)

                def b(s, x):
                    v = torch.zeros(k * m, dtype=F64) + (
                        b1 @ x if "B" in parts else 0.) + (
                        b0 if "b" in parts else 0.)
                    return v.reshape((k, m))

                def _mixed_integer_constraints_v(s):
                    ca = g.MixedIntegerConstraintsReturn()
                    cb = g.MixedIntegerConstraintsReturn()
                    Z = torch.zeros
                    if "A" in parts:
                        ca.Aout_input = a1
                    if "a" in parts:
                        ca.Cout = a0
                    if "B" in parts:
                        cb.Aout_input = b1
                    if "b" in parts:
                        cb.Cout = b0
                    r = []
                    for L, C, q in ((ca.Aout_input, ca.Cout, k),
                                    (cb.Aout_input, cb.Cout, k * m)):
                        L = Z((q, n), dtype=F64) if L is None else L
                        C = Z((q, ), dtype=F64) if C is None else C
                        r += list(ib(L, C, lo, up))
                    return (ca, cb) + tuple(r)
            self.s = S(*self.t)
            e = [h.elems(v).copy() for v in (a1, a0, b1, b0)]
            self.keep = list(zip((a1, a0, b1, b0), e))
            one = lambda c, v: v if c else v * 0  # noqa
            self.f = lambda x: np.concatenate((x[k:], one(
                "A" in parts, e[0].dot(x)) + one("a" in parts, e[1])))
            self.G = lambda x: np.concatenate((z(k * m), one(
                "B" in parts, e[2].dot(x)) + one("b" in parts, e[3])
            )).reshape(n, m)


def values(kind, n, m):
    def f(h):
        S = Sys(h, kind, n, m, "IA", True, True)
        s = S.s
        x = h.reals("x", n, -2, 2)
        u = h.reals("u", m, -3, 3)
        tx, tu = h.as_tensor(x), h.as_tensor(u)
        F, G = s.f(tx), s.G(tx)
        h.true(tuple(F.shape) == (n, ) and tuple(G.shape) == (n, m), "shapes")
        fx, gx = S.f(x), S.G(x)
        h.eq(h.elems(F), fx, "drift")
        h.eq(h.elems(G), gx, "input matrix")
        if kind != "linear":
            h.eq(h.elems(F)[:n // 2], x[n // 2:], "velocity")
        uc = clamp(u, S.ul, S.up)
        d = s.dynamics(tx, tu)
        h.true(tuple(d.shape) == (n, ), "shape of the derivative")
        h.eq(h.elems(d), fx + gx.dot(uc), "derivative")
        inr = AND([AND(a <= b, b <= c) for a, b, c in zip(S.ul, u, S.up)])
        D = h.elems(d)
        h.true((s.x_dim, s.u_dim, s.dtype) == (n, m, F64), "dimensions")
        h.eq(s.x_lo_all, S.l, "limits")
        h.eq(s.x_up_all, S.p, "limits")
        h.eq(h.elems(tu), u, "the control is left alone")
        h.eq(h.elems(tx), x, "the state is left alone")
        for t, v in S.keep:
            h.eq(h.elems(t), v, "the parameters are left alone")
        h.cover("inside the limits", inr)
        h.cover("clamped", u[0] > S.up[0])
    return f


KINDS = [("linear", 1, 1), ("linear", 2, 2), ("linear", 3, 1), ("net", 2, 1),
         ("net", 2, 2), ("net", 4, 1), ("net_deep", 2, 1),
         ("net_nobias", 4, 2), ("second_Aab", 2, 1), ("second_ABab", 4, 2),
         ("second_aB", 2, 2), ("second_AB", 4, 1), ("second_b", 2, 1)]
for k in KINDS:
    R.put(values(*k), "values_%s_%d_%d" % k, "state, control, limits symbolic")


def sets(kind, n, m, method, symbox, prog):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        S = Sys(h, kind, n, m, method, symbox, False, n == 4)
        x = inbox(h, "x", S.l, S.p)
        P0 = [[pnp(p).copy() for p in N.parameters()] for N in S.nets]
        r = S.s.mixed_integer_constraints()
        for N, P in zip(S.nets, P0):
            for a, b in zip(P, N.parameters()):
                h.eq(a, pnp(b), "the networks are left alone")
        for t, v in S.keep:
            h.eq(h.elems(t), v, "the parameters are left alone")
        t = 1e-6
        for i, (what, c, y, lo, up) in enumerate((
                ("drift", r.mip_cnstr_f, S.f(x), r.f_lo, r.f_up),
                ("input matrix", r.mip_cnstr_G, S.G(x).reshape(-1),
                 r.G_flat_lo, r.G_flat_up))):
            L, U = h.elems(lo), h.elems(up)
            h.true(len(L) == len(y) and len(U) == len(y), what + ": range")
            h.true(AND([AND(v >= a - t, v <= b + t)
                        for v, a, b in zip(y, L, U)]), "range of the " + what)
            N = len(pnp(c.Ain_slack)[0]) if c.Ain_slack is not None else 0
            if prog:
                GRB = g.gurobipy.GRB
                mip = g.GurobiTorchMILP(F64)
                xv = mip.addVars(n, lb=-GRB.INFINITY, name="x")
                yv = mip.addVars(len(y), lb=-GRB.INFINITY, name="y")
                vt = {"B": GRB.BINARY, "R": g.BINARYRELAX}[prog]
                mip.add_mixed_integer_linear_constraints(
                    c, xv, yv, "s", "b", "i", "e", "o", vt)
                m_ = mip.gurobi_model
                h.exists(m_, {**dict(zip(xv, x)), **dict(zip(yv, y))},
                         what + " feasible")
                if prog == "B":
                    continue
                h.cover("relaxed")
                continue
            if not N:
                h.true(AND(mic_conds(h, c, list(x))), what + " feasible")
                o = mic_out(h, c, list(x))
                h.true(len(o) == len(y), "outputs of the " + what)
                h.eq(np.array(o, dtype=object), y, what)
                continue
            pre = preacts(S.nets[i], x)
            acts = [l for l in S.nets[i]
                    if not isinstance(l, torch.nn.Linear)]
            z = [e for a, p in zip(acts, pre) for e in netfun([a], p)]
            h.true(OR([AND(mic_conds(h, c, list(x), z, list(b)))
                       for b in patterns(N)]), what + " feasible")
            s = h.reals("s%d" % i, N, -40, 40)
            for b in patterns(N):
                ok = AND(mic_conds(h, c, list(x), list(s), list(b)))
                o = mic_out(h, c, list(x), list(s), list(b))
                h.true(len(o) == len(y), "outputs of the " + what)
                h.true(IMPLIES(ok, AND([near(p, q, 1e-5)
                                        for p, q in zip(o, y)])),
                       what + " of every completion")
            h.cover("completion")
        if prog == "B":
            # both in one program, with every completion
            val = None
            GRB = g.gurobipy.GRB
            mip = g.GurobiTorchMILP(F64)
            xv = mip.addVars(n, lb=-GRB.INFINITY, name="x")
            fv = mip.addVars(n, lb=-GRB.INFINITY, name="f")
            gv = mip.addVars(n * m, lb=-GRB.INFINITY, name="g")
            for c, yv, q in ((r.mip_cnstr_f, fv, "f"),
                             (r.mip_cnstr_G, gv, "g")):
                mip.add_mixed_integer_linear_constraints(
                    c, xv, yv, "s" + q, "b" + q, "i", "e", "o", GRB.BINARY)
            val = h.assign(mip.gurobi_model, dict(zip(xv, x)), "m")
            for v, q in zip(fv + gv, np.concatenate((
                    S.f(x), S.G(x).reshape(-1)))):
                h.true(near(val[v], q, 1e-5), "the only values")
            h.cover("program")
        h.cover("sets")
    return f


for k in KINDS:
    lin = k[0][:3] != "net"
    R.put(sets(*k, "IA", True, ""), "sets_%s_%d_%d" % k,
          "box, state, slacks symbolic")
    if k[0] in ("net", "net_deep") and k[1] == 2:
        for mth in ("LP", "MIP", "IA_MIP"):
            R.put(sets(*k, mth, False, ""), "sets_%s_%d_%d_%s" % (k + (
                mth, )), "state, slacks symbolic")
for k in (("linear", 2, 1), ("net", 2, 1), ("second_Aab", 2, 1)):
    for p in "BR":
        R.put(sets(*k, "IA", False, p), "program_%s_%s" % (k[0], p),
              "state, completion symbolic")


def regression(n, m):
    """The forward model handed to the training helper."""
    def f(h):
        c = loader.module("control_affine_system")
        F = mknet((n, 2, n), 21, .1)
        G = mknet((n, 2, n * m), 22, .1)
        xe, ue = h.reals("xe", n, -1, 1), h.reals("ue", m, -1, 1)
        log = []
        save = c.utils.train_approximator
        c.utils.train_approximator = lambda *a, **k: log.append((a, k))
        data = object()
        try:
            c.train_control_affine_forward_model(
                F, G, h.as_tensor(xe), h.as_tensor(ue), data, 7, .125,
                batch_size=3, verbose=False)
        finally:
            c.utils.train_approximator = save
        (a, k), = log
        import inspect
        b = inspect.signature(save).bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        h.true(b["dataset"] is data and b["model"] is F and b[
            "batch_size"] == 3 and b["num_epochs"] == 7 and b[
            "lr"] == .125 and not b["verbose"], "arguments")
        h.true([id(p) for p in b["additional_variable"]] == [
            id(p) for p in G.parameters()], "both networks are trained")
        x, u = h.reals("x", (2, n), -1, 1), h.reals("u", (2, m), -1, 1)
        y = b["output_fun"](F, h.as_tensor(np.concatenate((x, u), axis=1)),
                            **b["output_fun_args"])
        h.true(tuple(y.shape) == (2, n), "shape")

        def d(x, u):
            return netfun(F, x) + netfun(G, x).reshape(n, m).dot(u)
        for i in range(2):
            h.eq(h.elems(y)[i], d(x[i], u[i]) - d(xe, ue), "derivative")
        h.cover("regression")
    return f


for n, m in ((1, 1), (2, 1), (2, 2)):
    R.put(regression(n, m), "regression_%d_%d" % (n, m),
          "batch, equilibrium symbolic")


def lifted(n, m, parts):
    """A second-order system whose sets have all kinds of outputs."""
    def f(h):
        c = loader.module("control_affine_system")
        g = loader.module("gurobi_torch_mip")
        k = n // 2
        lo, up, L, U = box(h, n, True)
        sets, vals, want = [], [], []
        for i, rows in enumerate((k, k * m)):
            r = g.MixedIntegerConstraintsReturn()
            cols = {"input": n, "slack": 2 + i, "binary": 1 + i}
            v = [h.reals("%s%d" % (q, i), e, -2, 2) for q, e in cols.items()]
            w = np.zeros(rows)
            for (q, e), y in zip(cols.items(), v):
                if q[0] in parts[i]:
                    A = h.tensor("A%s%d" % (q, i), (rows, e), -2, 2)
                    setattr(r, "Aout_" + q, A)
                    w = w + h.elems(A).dot(y)
                for s in ("in", "eq"):
                    setattr(r, "A%s_%s" % (s, q), tt(rnd(i, (2, e))))
            if "c" in parts[i]:
                r.Cout = h.tensor("C%d" % i, rows, -2, 2)
                w = w + h.elems(r.Cout)
            r.rhs_in, r.rhs_eq = tt(rnd(3 + i, 2)), tt(rnd(5 + i, 2))
            r.binary_lo, r.slack_up = tt(rnd(7, 1 + i)), tt(rnd(8, 2 + i))
            sets.append(r)
            vals.append(v)
            want.append(w)
        lims = [h.tensor("l%d" % i, e, -2, 2) for i, e in enumerate(
            (k, k, k * m, k * m))]

        class S(c.SecondOrderControlAffineSystem):
            def _mixed_integer_constraints_v(s):
                return tuple(sets) + tuple(lims)
        s = S(lo, up, tt(ULO[:m]), tt(UUP[:m]))
        keep = [dict(q.__dict__) for q in sets]
        r = s.mixed_integer_constraints()
        zb = np.zeros(k * m)
        for i, (q, pre) in enumerate(((r.mip_cnstr_f, vals[0][0][k:]),
                                      (r.mip_cnstr_G, zb))):
            o = mic_out(h, q, *[list(v) for v in vals[i]])
            if o is None:
                h.true(parts[i] == "", "outputs are given")
                continue
            h.eq(np.array(o, dtype=object), np.concatenate((pre, want[i])),
                 "outputs: positions first")
            for key, v in keep[i].items():
                h.true(sets[i].__dict__[key] is v, "the parts are left alone")
                if "out" in key:
                    continue
                h.true((q.__dict__[key] is None) == (v is None), key)
                if v is not None:
                    h.eq(pnp(q.__dict__[key]), pnp(v), key)
        E = [h.elems(v) for v in lims]
        cat = np.concatenate
        for got, w, msg in ((r.f_lo, cat((L[k:], E[0])), "lowest drift"),
                            (r.f_up, cat((U[k:], E[1])), "highest drift"),
                            (r.G_flat_lo, cat((zb, E[2])), "lowest inputs"),
                            (r.G_flat_up, cat((zb, E[3])), "highest inputs")):
            h.eq(h.elems(got), w, msg)
        h.cover("lifted")
    return f


for i, (n, m, p) in enumerate(((2, 1, ("isbc", "isbc")), (4, 2, (
        "isbc", "isbc")), (2, 2, ("sb", "sb")), (4, 1, ("b", "b")),
        (2, 1, ("ic", "ic")), (2, 1, ("bc", "s")))):
    R.put(lifted(n, m, p), "lifted_%d" % i, "all entries symbolic")


def past(kind, n, m, method, how):
    """The system after other questions with other networks."""
    def args(h):
        return h.tensor("x", n, -.5, .5), h.tensor("u", m, -1, 1)

    def ask(h, S, x, u):
        return (S.s.mixed_integer_constraints(), S.s.f(x), S.s.G(x),
                S.s.dynamics(x, u))
    return history(
        lambda h: Sys(h, kind, n, m, method, False, False, True),
        lambda h, S, a: ask(h, S, tt([.125] * n), tt([-.25] * m)),
        lambda h, S, a: ask(h, S, *a), lambda S: list(S.nets), how, args)


for i, a in enumerate((("net", 2, 1, "IA", "data"),
                       ("net_deep", 2, 2, "LP", "copy"),
                       ("net_nobias", 2, 1, "MIP", "copy"))):
    R.put(past(*a), "history_%d_%s" % (i, a[0]), "state, control symbolic")
