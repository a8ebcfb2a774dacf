"""Program mirror against the recorded solver program."""
import itertools
from fractions import Fraction
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.num import SR
from symx.lib import (AND, OR, IMPLIES, IFF, near, tt, pnp, leq, eqz, patterns,
                      F64)

HARNESSES = R = Registry()
BOUNDS = ("Programs with up to five continuous and four binary variables; "
          "coefficients, right-hand sides and variable bounds symbolic in "
          "[-2,2] (bounds also infinite or equal); every real point and every "
          "binary pattern. Objective recomputation: invertible or redundant "
          "active sets with fixed coefficients, right-hand sides and costs "
          "symbolic; parametric optimum for a symbolic change of the data.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the solver's program is the list of variables, bounds and "
               "rows recorded by the stand-in for its API",
               "matrix inverses and pseudo-inverses are exact"]


def mirror_conds(h, mip, r, z):
    """Conditions kept in the mirror at (r, z)."""
    A, Z, b = mip.get_inequality_constraints()
    out = []
    A, Z, b = pnp(A), pnp(Z), pnp(b)
    h.true(A.shape == (len(mip.rhs_in), len(mip.r)) and
           Z.shape == (len(mip.rhs_in), len(mip.zeta)) and
           b.shape == (len(mip.rhs_in), ), "sizes of the inequality data")
    for i in range(len(b)):
        e = sum((p * q for p, q in zip(A[i], r)), 0) + sum(
            (p * q for p, q in zip(Z[i], z)), 0) - b[i]
        out.append(leq(h, e, 1e-9))
    A, c = mip.get_active_constraints(set(), h.as_tensor(
        np.array(z, dtype=object)) if len(z) else torch.zeros(0, dtype=F64))
    A, c = pnp(A), pnp(c)
    h.true(A.shape == (len(mip.rhs_eq), len(mip.r)) and
           c.shape == (len(mip.rhs_eq), ), "sizes of the equality data")
    for i in range(len(c)):
        out.append(eqz(h, sum((p * q for p, q in zip(A[i], r)), 0) - c[i],
                       1e-9))
    return out


def point(h, mip, name="v"):
    r = list(h.reals(name + "r", len(mip.r), -4, 4)) if mip.r else []
    z = [h.binary("%sz%d" % (name, i)) for i in range(len(mip.zeta))]
    return r, z


def solver_conds(h, mip, r, z):
    m = mip.gurobi_model
    m.update()
    val = {}
    for v, x in list(zip(mip.r, r)) + list(zip(mip.zeta, z)):
        val[v] = SR.const(x)
    h.true(set(val) == set(m._vars) and len(val) == len(m._vars),
           "every variable of the solver is in the mirror")
    h.true(all(mip.r_indices[v] == i for i, v in enumerate(mip.r)) and
           all(mip.zeta_indices[v] == i for i, v in enumerate(mip.zeta)),
           "index maps")
    cs = []
    for c in m.feasible_conds(val, tol=0 if h.symbolic else Fraction(1, 10**9),
                              skip_binary=True):
        cs.append(c)
    return cs


def same(h, mip, msg="mirror"):
    r, z = point(h, mip)
    a = AND(mirror_conds(h, mip, r, z))
    b = AND(solver_conds(h, mip, r, z))
    if h.symbolic:
        h.true(IFF(a, b), msg)
    else:
        # points at a rounding distance of a row are left to the solver
        h.true(a == b, msg)
    return r, z


def tensors(h, name, n, kind):
    """Bounds of n variables, with infinite entries."""
    if kind == "finite":
        return h.tensor(name, n)
    v = h.reals(name, n - 1)
    inf = -1e100 if kind == "-inf" else 1e100
    a = np.empty(n, dtype=object)
    a[:-1] = v
    a[-1] = SR.const(inf) if h.symbolic else inf
    return h.as_tensor(a if h.symbolic else a.astype(float))


def vars_continuous(lk, uk, n=2):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        mip = g.GurobiTorchMIP(F64)
        mip.addVars(1, lb=-GRB.INFINITY)
        lo, up = tensors(h, "lo", n, lk), tensors(h, "up", n, uk)
        L, U = h.elems(lo), h.elems(up)
        h.assume([a <= b for a, b in zip(L, U)])
        vs = mip.addVars(n, lb=lo, ub=up, name="x")
        h.true(len(vs) == n and all(v in mip.r_indices for v in vs),
               "variables returned")
        mip.addVars(2, vtype=GRB.BINARY)
        mip.addVars(1)
        r, z = same(h, mip)
        ok = AND(mirror_conds(h, mip, r, z))
        want = AND([AND(x >= a, x <= b) for x, a, b in zip(r[1:1 + n], L, U)],
                   r[1 + n] >= 0)
        if h.symbolic:
            h.true(IFF(ok, want), "the bounds given")
        h.cover("equal bounds", OR([a == b for a, b in zip(L, U)]))
        h.cover("strict bounds", AND([a < b for a, b in zip(L, U)]))
    return f


for l in ("finite", "-inf"):
    for q in ("finite", "inf"):
        R.put(vars_continuous(l, q), "vars_%s_%s" % (l, q),
              "2 variables, bounds and point symbolic")
        R.put(vars_continuous(l, q, 3), "vars3_%s_%s" % (l, q),
              "3 variables, bounds and point symbolic", tier="thorough")


def vars_numbers(h):
    g = loader.module("gurobi_torch_mip")
    GRB = g.gurobipy.GRB
    mip = g.GurobiTorchMIP(F64)
    mip.addVars(2)
    mip.addVars(1, lb=-1.5, ub=2, name="y")
    mip.addVars(2, lb=-GRB.INFINITY, ub=.5)
    mip.addVars(1, lb=1, ub=1)
    mip.addVars(1, lb=-GRB.INFINITY)
    mip.addVars(1, vtype=GRB.BINARY)
    r, z = same(h, mip)
    ok = AND(mirror_conds(h, mip, r, z))
    want = AND(r[0] >= 0, r[1] >= 0, r[2] >= -1.5, r[2] <= 2, r[3] <= .5,
               r[4] <= .5, r[5] == 1)
    if h.symbolic:
        h.true(IFF(ok, want), "the bounds given")
    h.cover("numbers")


R.put(vars_numbers, "vars_numbers", "bounds as numbers, point symbolic")


def vars_binary(h):
    g = loader.module("gurobi_torch_mip")
    GRB = g.gurobipy.GRB
    mip = g.GurobiTorchMIP(F64)
    lo = h.tensor("lo", 2, -1, 1)
    up = h.tensor("up", 2, 0, 2)
    h.assume([AND(b >= a) for a, b in zip(h.elems(lo), h.elems(up))])
    b0 = mip.addVars(2, vtype=GRB.BINARY, name="b")
    b1 = mip.addVars(2, lb=lo, ub=up, vtype=g.BINARYRELAX, name="c")
    b2 = mip.addVars(1, lb=0., ub=1., vtype=GRB.BINARY)
    b3 = mip.addVars(1, vtype=g.BINARYRELAX)
    h.true([mip.zeta_indices[v] for v in b0 + b1 + b2 + b3] == list(range(6))
           and not mip.r, "binaries registered in order")
    h.true(all(v.vtype == "B" for v in b0 + b2), "binary type")
    h.true(all(v.vtype == "C" for v in b1 + b3), "relaxed type")
    # a relaxed variable ranges over the part of [0,1] in its bounds
    x = h.reals("x", 2, -2, 3)
    y = h.real("y", -2, 3)
    for k in range(2):
        inb = AND(x[k] >= SR.const(b1[k].lb), x[k] <= SR.const(b1[k].ub))
        want = AND(x[k] >= h.elems(lo)[k], x[k] <= h.elems(up)[k],
                   x[k] >= 0, x[k] <= 1)
        h.true(IFF(inb, want) if h.symbolic else inb == want,
               "range of a relaxed binary")
    inb = AND(y >= SR.const(b3[0].lb), y <= SR.const(b3[0].ub))
    h.true(IFF(inb, AND(y >= 0, y <= 1)) if h.symbolic else
           inb == (0 <= y <= 1), "default range of a relaxed binary")
    mip.remove_binary_relaxation()
    h.true(all(v.vtype == "B" for v in mip.zeta), "relaxation removed")
    fails = False
    try:
        mip.addVars(1, vtype=GRB.INTEGER)
    except Exception:
        fails = True
    h.true(fails, "other types are rejected")
    h.cover("binary")


R.put(vars_binary, "vars_binary", "bounds of relaxed binaries symbolic")


def program(h, cls="GurobiTorchMIP"):
    g = loader.module("gurobi_torch_mip")
    GRB = g.gurobipy.GRB
    mip = getattr(g, cls)(F64)
    INF = GRB.INFINITY
    x = mip.addVars(2, lb=-INF, name="x")
    a = mip.addVars(2, vtype=GRB.BINARY, name="a")
    y = mip.addVars(2, lb=-INF, name="y")
    b = mip.addVars(1, vtype=g.BINARYRELAX, name="b")
    return g, GRB, mip, x, a, y, b


SENSES = ("<", ">", "=")


def ev(co, vs, val):
    return sum((c * val[v] for c, v in zip(co, vs)), 0)


def rel(h, e, s, tol=1e-9):
    if s == "=":
        return eqz(h, e, tol)
    return leq(h, e if s == "<" else -e, tol)


def lconstr(sense, order):
    """One row in each order of continuous and binary variables."""
    def f(h):
        g, GRB, mip, x, a, y, b = program(h)
        c = h.tensor("c", 6)
        d = h.tensor("d", ())if False else h.tensor("d", 1)[0]
        groups = {"xab": [x, [a[1]], b], "bya": [b, [y[1], y[0]], a],
                  "mixed": [[a[1], x[1]], [y[0], b[0]]],
                  "cont": [y, [x[0]]], "bin": [[a[1]], b],
                  "empty": [[x[1]], []]}[order]
        mip.addLConstr([tt([1.])], [[x[0]]], "<", 3.)
        mip.addLConstr([tt([1., -2])], [[x[0], a[0]]], "=", 1.)
        k = 0
        co = []
        for q in groups:
            co.append(c[k:k + len(q)])
            k += len(q)
        rhs = d
        mip.addLConstr(co, groups, sense, rhs, name="row")
        mip.addLConstr([tt([1.])], [[y[0]]], ">", -3.)
        r, z = same(h, mip)
        val = dict(zip(mip.r, r))
        val.update(zip(mip.zeta, z))
        flat = [v for q in groups for v in q]
        e = ev(h.elems(c), flat, val) - h.scalar(d)
        want = AND(rel(h, e, sense), leq(h, val[x[0]] - 3, 1e-9),
                   eqz(h, val[x[0]] - 2 * val[a[0]] - 1, 1e-9),
                   leq(h, -3 - val[y[0]], 1e-9))
        got = AND(mirror_conds(h, mip, r, z))
        if h.symbolic:
            h.true(IFF(got, want), "the row added")
        else:
            h.true(got == want, "the row added")
        h.cover("row")
    return f


for s in SENSES:
    for o in ("xab", "bya", "mixed", "cont", "bin", "empty"):
        R.put(lconstr(s, o), "row_%s_%s" % ({"<": "le", ">": "ge",
                                             "=": "eq"}[s], o),
              "coefficients, right-hand side and point symbolic")


def mconstr(sense, order, m=2, twice=False):
    def f(h):
        g, GRB, mip, x, a, y, b = program(h)
        groups = {"xab": [x, a, b], "bya": [b, [y[1]], [a[0]]],
                  "mixed": [[a[1], x[1]], [y[0], b[0]]],
                  "cont": [y, [x[0]]], "bin": [[a[1]], b]}[order]
        n = sum(len(q) for q in groups)
        A = h.tensor("A", (m, n))
        d = h.tensor("d", m)
        mip.addLConstr([tt([1.])], [[x[0]]], "<", 3.)
        mip.addLConstr([tt([1., -2])], [[x[0], a[0]]], "=", 1.)
        k = 0
        co = []
        for q in groups:
            co.append(A[:, k:k + len(q)])
            k += len(q)
        mip.addMConstr(co, groups, sense, d, name="rows")
        if twice:
            mip.addMConstr(co[::-1], groups[::-1], twice, d + 1.)
        r, z = same(h, mip)
        val = dict(zip(mip.r, r))
        val.update(zip(mip.zeta, z))
        flat = [v for q in groups for v in q]
        want = [leq(h, val[x[0]] - 3, 1e-9),
                eqz(h, val[x[0]] - 2 * val[a[0]] - 1, 1e-9)]
        for i in range(m):
            e = ev(h.elems(A)[i], flat, val) - h.elems(d)[i]
            want.append(rel(h, e, sense))
            if twice:
                want.append(rel(h, e - 1, twice))
        got = AND(mirror_conds(h, mip, r, z))
        h.true(IFF(got, AND(want)) if h.symbolic else got == AND(want),
               "the rows added")
        h.cover("rows")
    return f


for s in SENSES:
    for o in ("xab", "bya", "mixed", "cont", "bin"):
        R.put(mconstr(s, o), "rows_%s_%s" % ({"<": "le", ">": "ge",
                                              "=": "eq"}[s], o),
              "two rows; coefficients, right-hand sides, point symbolic")
for s, t in itertools.product(SENSES, SENSES):
    R.put(mconstr(s, "mixed", 2, t), "rows_twice_%d%d" % (
        SENSES.index(s), SENSES.index(t)),
        "two blocks of two rows; data and point symbolic")


def gradient(h):
    """The mirror is differentiable in the data that was given."""
    g, GRB, mip, x, a, y, b = program(h)
    A = h.tensor("A", (2, 4))
    d = h.tensor("d", 2)
    c = h.tensor("c", 3)
    A.requires_grad_(True)
    d.requires_grad_(True)
    c.requires_grad_(True)
    mip.addMConstr([A[:, :2], A[:, 2:]], [[x[1], a[0]], [y[0], b[0]]], ">", d)
    mip.addLConstr([c], [[y[1], a[1], x[0]]], "<", d[0])
    mip.addMConstr([A[:, :2]], [[a[1], y[1]]], "=", 2 * d)
    Ar, Az, rhs = mip.get_inequality_constraints()
    wr = h.reals("wr", (3, 4))
    wz = h.reals("wz", (3, 3))
    wb = h.reals("wb", 3)
    L = (Ar * h.as_tensor(wr)).sum() + (Az * h.as_tensor(wz)).sum() + (
        rhs * h.as_tensor(wb)).sum()
    z = h.tensor("z", 3)
    Aq, bq = mip.get_active_constraints(set(), z)
    vq = h.reals("vq", (2, 4))
    ub = h.reals("ub", 2)
    L = L + (Aq * h.as_tensor(vq)).sum() + (bq * h.as_tensor(ub)).sum()
    gA, gd, gc = torch.autograd.grad(L, (A, d, c))
    eA = np.zeros((2, 4), dtype=object)
    Z = h.elems(z)
    ri = {v: i for i, v in enumerate(mip.r)}
    zi = {v: i for i, v in enumerate(mip.zeta)}
    for i in range(2):
        for j, v in enumerate([x[1], a[0], y[0], b[0]]):
            eA[i, j] = -(wr[i, ri[v]] if v in ri else wz[i, zi[v]])
        eA[i, 0] = eA[i, 0] - ub[i] * Z[zi[a[1]]]
        eA[i, 1] = eA[i, 1] + vq[i, ri[y[1]]]
    h.eq(gA, eA, "gradient in the matrix")
    h.eq(gd, np.array([-wb[0] + wb[2] + 2 * ub[0], -wb[1] + 2 * ub[1]],
                      dtype=object), "gradient in the right-hand side")
    h.eq(gc, np.array([wr[2, ri[y[1]]], wz[2, zi[a[1]]], wr[2, ri[x[0]]]],
                      dtype=object), "gradient in a row")
    h.cover("gradient")


R.put(gradient, "data_gradient", "data and weights symbolic")


def duplicates(h):
    g, GRB, mip, x, a, y, b = program(h, "GurobiTorchMILP")
    c = h.tensor("c", 2)

    def raises(f):
        try:
            f()
        except Exception:
            return True
        return False
    for vs in ([x[0], x[0]], [a[1], a[1]]):
        h.true(raises(lambda: mip.addLConstr([c], [vs], "<", 0.)),
               "duplicate variable in a row is rejected")
        h.true(raises(lambda: mip.setObjective([c], [vs], 0., 1)),
               "duplicate variable in the objective is rejected")
    h.cover("duplicates")


R.put(duplicates, "duplicates", "coefficients symbolic")


def active(sel):
    def f(h):
        g, GRB, mip, x, a, y, b = program(h)
        A = h.tensor("A", (3, 4))
        d = h.tensor("d", 3)
        mip.addMConstr([A[:, :2], A[:, 2:]], [[x[1], a[0]], [y[0], b[0]]],
                       ">", d)
        mip.addMConstr([A[:2, :3]], [[a[1], y[1], x[1]]], "=", d[1:])
        z = [h.binary("z%d" % i) for i in range(3)]
        r = list(h.reals("r", 4, -3, 3))
        M, v = mip.get_active_constraints(set(sel), h.as_tensor(
            np.array(z, dtype=object)))
        h.true(tuple(M.shape) == (2 + len(sel), 4) and
               tuple(v.shape) == (2 + len(sel), ), "size")
        M, v = pnp(M), pnp(v)
        val = dict(zip(mip.r, r))
        val.update(zip(mip.zeta, z))
        E, D = h.elems(A), h.elems(d)
        want = [ev(E[i], [a[1], y[1], x[1]], val) - D[1 + i]
                for i in range(2)] + [
                    D[i] - ev(E[i], [x[1], a[0], y[0], b[0]], val)
                    for i in sel]
        got = [sum((p * q for p, q in zip(M[i], r)), 0) - v[i]
               for i in range(len(v))]
        h.eq(np.array(got[:2], dtype=object), np.array(want[:2], dtype=object),
             "equality rows")
        # rows of the active set in some order
        for k, wv in enumerate(want[2:]):
            h.true(OR([near(q, wv) for q in got[2:]]), "row %d" % k)
        h.cover("active")
    return f


for k, s in enumerate(((), (0, ), (2, ), (0, 2), (1, 2), (0, 1, 2))):
    R.put(active(s), "active_%d" % k, "data, binaries and point symbolic")


def objective_linear(sense, form):
    def f(h):
        g, GRB, mip, x, a, y, b = program(h, "GurobiTorchMILP")
        c = h.tensor("c", 5)
        k = h.tensor("k", 1)[0]
        groups = {"mixed": [[a[1], x[1]], [y[0], b[0]]], "x": [x],
                  "bin": [a, b], "order": [b, [y[1], y[0]], [x[0]]]}[form]
        n, co = 0, []
        for q in groups:
            co.append(c[n:n + len(q)])
            n += len(q)
        if form == "x":
            mip.setObjective([tt([3.])], [[y[0]]], 2., 1)
            mip.setObjective(co, groups, 1.5, sense)
            kk = 1.5
        else:
            mip.setObjective(co, groups, k, sense)
            kk = h.scalar(k)
        r, z = point(h, mip)
        val = {v: SR.const(q) for v, q in list(zip(mip.r, r)) + list(
            zip(mip.zeta, z))}
        m = mip.gurobi_model
        flat = [v for q in groups for v in q]
        v2 = dict(zip(mip.r, r))
        v2.update(zip(mip.zeta, z))
        want = ev(h.elems(c), flat, v2) + kk
        got = m._objective.eval(val)
        got = got if h.symbolic else float(got.c)
        mirror = sum((p * q for p, q in zip(pnp(mip.c_r), r)), 0) + sum(
            (p * q for p, q in zip(pnp(mip.c_zeta), z)), 0) + h.scalar(
                mip.c_constant)
        h.eq(got, want, "objective of the solver")
        h.eq(mirror, want, "objective of the mirror")
        h.true(m._sense == sense and mip.sense == sense, "sense")
        h.cover("objective")
    return f


for s in (1, -1):
    for o in ("mixed", "x", "bin", "order"):
        R.put(objective_linear(s, o), "objective_%s_%s" % (
            "min" if s == 1 else "max", o),
            "coefficients, constant and point symbolic")


def objective_quadratic(sense):
    def f(h):
        g, GRB, mip, x, a, y, b = program(h, "GurobiTorchMIQP")
        Q1 = h.tensor("Q1", (2, 2))
        Q2 = h.tensor("Q2", (1, 2))
        Q3 = h.tensor("Q3", (2, 1))
        Q4 = h.tensor("Q4", (1, 2))
        c = h.tensor("c", 3)
        k = h.tensor("k", 1)[0]
        for q in (Q1, Q2, Q3, Q4, c):
            h.assume([v != 0 for v in h.elems(q).reshape(-1)])
        mip.setObjective([Q1, Q2, Q3, Q4],
                         [(x, [y[1], x[1]]), ([a[0]], [a[1], b[0]]),
                          (y, [a[1]]), ([b[0]], x)],
                         [c[:1], c[1:]], [[y[0]], [a[1], x[0]]], k, sense)
        r, z = point(h, mip)
        val = {v: SR.const(q) for v, q in list(zip(mip.r, r)) + list(
            zip(mip.zeta, z))}
        v2 = dict(zip(mip.r, r))
        v2.update(zip(mip.zeta, z))
        C = h.elems(c)
        want = C[0] * v2[y[0]] + C[1] * v2[a[1]] + C[2] * v2[x[0]] + h.scalar(
            k)
        for Q, (l, q) in ((Q1, (x, [y[1], x[1]])),
                          (Q2, ([a[0]], [a[1], b[0]])), (Q3, (y, [a[1]])),
                          (Q4, ([b[0]], x))):
            for i, u in enumerate(l):
                for j, w in enumerate(q):
                    want = want + h.elems(Q)[i, j] * v2[u] * v2[w]
        got = mip.gurobi_model._objective.eval(val)
        got = got if h.symbolic else float(got.c)
        Qr, Qz, Qrz = pnp(mip.Q_r), pnp(mip.Q_zeta), pnp(mip.Q_rzeta)
        R_, Z_ = np.array(r, dtype=object), np.array(z, dtype=object)
        mirror = R_.dot(Qr.dot(R_)) + Z_.dot(Qz.dot(Z_)) + R_.dot(
            Qrz.dot(Z_)) + pnp(mip.c_r).dot(R_) + pnp(mip.c_zeta).dot(
                Z_) + h.scalar(mip.c_constant)
        h.eq(got, want, "objective of the solver")
        h.eq(mirror, want, "objective of the mirror")
        h.true(mip.gurobi_model._sense == sense and mip.sense == sense,
               "sense")
        h.cover("objective")
    return f


for s in (1, -1):
    R.put(objective_quadratic(s), "objective_quadratic_%d" % s,
          "coefficients (non-zero) and point symbolic")


# ---- recomputed objective
def small(h, cls, d, redundant=False):
    """x in R^2, a in {0,1}: rows
       0: x0 + 2 x1 - a <= d0      1: -x0 + x1 + a <= d1
       2: x0 - x1 <= d2            3 (redundant): 2 x0 + 4 x1 - 2 a <= 2 d0
    """
    g = loader.module("gurobi_torch_mip")
    GRB = g.gurobipy.GRB
    mip = getattr(g, cls)(F64)
    x = mip.addVars(2, lb=-GRB.INFINITY)
    a = mip.addVars(1, vtype=GRB.BINARY)
    mip.addMConstr([tt([[1., 2], [-1, 1]]), tt([[-1.], [1]])], [x, a], "<",
                   d[:2])
    mip.addMConstr([tt([[-1., 1]])], [x], ">", -d[2:3])
    if redundant:
        mip.addMConstr([tt([[2., 4]]), tt([[-2.]])], [x, a], "<", 2 * d[:1])
    return g, mip, x, a


ROWS = [((1, 2), -1, 0), ((-1, 1), 1, 1), ((1, -1), 0, 2)]


def vertex(act, D, z):
    """Intersection of two of the rows."""
    (p, u), (q, v) = [(ROWS[i][0], D[ROWS[i][2]] - ROWS[i][1] * z)
                      for i in act]
    det = p[0] * q[1] - p[1] * q[0]
    return ((u * q[1] - p[1] * v) / Fraction(det) if isinstance(
        u, SR) else (u * q[1] - p[1] * v) / det,
        (p[0] * v - u * q[0]) / Fraction(det) if isinstance(
            u, SR) else (p[0] * v - u * q[0]) / det)


def recompute_linear(act, redundant):
    def f(h):
        d, c, cz = h.tensor("d", 3), h.tensor("c", 2), h.tensor("cz", 1)
        k = h.tensor("k", 1)[0]
        for q in (d, c, cz):
            q.requires_grad_(True)
        g, mip, x, a = small(h, "GurobiTorchMILP", d, redundant)
        mip.setObjective([c, cz], [x, a], k, 1)
        z = h.binary("z")
        s = set(act) | ({3} if redundant else set())
        v = mip.compute_objective_from_mip_data(s, h.as_tensor(
            np.array([z], dtype=object)))
        D, C, CZ = h.elems(d), h.elems(c), h.elems(cz)
        xs = vertex(act, D, z)
        h.eq(v, C[0] * xs[0] + C[1] * xs[1] + CZ[0] * z + h.scalar(k),
             "objective at the vertex")
        gd, gc, gz = torch.autograd.grad(v, (d, c, cz))
        h.eq(gc, np.array(xs, dtype=object), "gradient in the cost")
        h.eq(gz, np.array([z], dtype=object), "gradient in the binary cost")
        e = np.zeros(3, dtype=object)
        for j in act:
            D2 = np.array([0, 0, 0], dtype=object)
            D2[j] = 1.
            w = vertex(act, D2, 0)
            e[j] = C[0] * w[0] + C[1] * w[1]
        h.eq(gd, e, "gradient in the right-hand side")
        h.cover("recompute")
    return f


for k, s in enumerate(((0, 1), (0, 2))):
    R.put(recompute_linear(s, False), "recompute_linear_%d" % k,
          "right-hand sides and costs symbolic")
R.put(recompute_linear((0, 1), True), "recompute_redundant",
      "as above, with a redundant active row")


def recompute_matrix_gradient(h):
    """Gradient in the constraint matrix at fixed data."""
    g = loader.module("gurobi_torch_mip")
    GRB = g.gurobipy.GRB
    mip = g.GurobiTorchMILP(F64)
    x = mip.addVars(2, lb=-GRB.INFINITY)
    a = mip.addVars(1, vtype=GRB.BINARY)
    A = h.const(tt([[1., 2], [-1, 1]]))
    B = h.const(tt([[-1.], [1]]))
    A.requires_grad_(True)
    B.requires_grad_(True)
    d, c = h.tensor("d", 2), h.tensor("c", 2)
    mip.addMConstr([A, B], [x, a], "<", d)
    mip.setObjective([c], [x], 0., 1)
    z = h.binary("z")
    v = mip.compute_objective_from_mip_data({0, 1}, h.as_tensor(
        np.array([z], dtype=object)))
    gA, gB = torch.autograd.grad(v, (A, B))
    D, C = h.elems(d), h.elems(c)
    xs = vertex((0, 1), np.append(D, 0), z)
    # lambda' A = c'
    M = np.array([[1., 2], [-1, 1]])
    lam = np.linalg.solve(M.T, np.eye(2))
    lam = [sum((float(lam[i, j]) * C[j] for j in range(2)), 0)
           for i in range(2)]
    h.eq(gA, np.array([[-lam[i] * xs[j] for j in range(2)]
                       for i in range(2)], dtype=object),
         "gradient in the matrix")
    h.eq(gB, np.array([[-lam[i] * z] for i in range(2)], dtype=object),
         "gradient in the binary columns")
    h.cover("matrix")


R.put(recompute_matrix_gradient, "recompute_matrix_gradient",
      "right-hand sides and costs symbolic, matrix fixed")


def recompute_quadratic(act, sym):
    def f(h):
        d = h.tensor("d", 3, -1, 1)
        c = h.tensor("c", 2, -1, 1)
        cz = h.tensor("cz", 1, -1, 1)
        qz = h.tensor("qz", 1, -1, 1)
        cross = h.tensor("cross", (2, 1), -1, 1)
        h.assume([v != 0 for v in h.elems(cross).reshape(-1)] + [
            h.elems(qz)[0] != 0])
        Q = tt([[2., .5], [.5, 1]]) if sym else tt([[2., 1], [-.5, 1]])
        g, mip, x, a = small(h, "GurobiTorchMIQP", d)
        k = h.tensor("k", 1)[0]
        mip.setObjective([Q, qz.reshape((1, 1)), cross],
                         [(x, x), (a, a), (x, a)], [c, cz], [x, a], k, 1)
        z = h.binary("z")
        v = h.scalar(mip.compute_objective_from_mip_data(set(act), h.as_tensor(
            np.array([z], dtype=object)), penalty=0.))
        D, C, CZ, X = h.elems(d), h.elems(c), h.elems(cz), h.elems(cross)
        q = pnp(Q)

        def obj(p):
            return (q[0, 0] * p[0] * p[0] + (q[0, 1] + q[1, 0]) * p[0] * p[1] +
                    q[1, 1] * p[1] * p[1] + C[0] * p[0] + C[1] * p[1] +
                    (X[0, 0] * p[0] + X[1, 0] * p[1]) * z + CZ[0] * z +
                    h.elems(qz)[0] * z * z + h.scalar(k))
        # stationary point of the objective on the active rows
        if not act:
            H = np.array([[float(2 * q[0, 0]), float(q[0, 1] + q[1, 0])],
                          [float(q[0, 1] + q[1, 0]), float(2 * q[1, 1])]])
            Hi = np.linalg.inv(H)
            gr = [-(C[i] + X[i, 0] * z) for i in range(2)]
            p = [Fraction(Hi[i, 0]).limit_denominator(10**6) * gr[0] +
                 Fraction(Hi[i, 1]).limit_denominator(10**6) * gr[1]
                 if h.symbolic else Hi[i, 0] * gr[0] + Hi[i, 1] * gr[1]
                 for i in range(2)]
        elif len(act) == 2:
            p = vertex(act, D, z)
        else:
            (n0, n1), bz, j = ROWS[act[0]]
            rhs = D[j] - bz * z
            # p = base + t * dir on the row, minimise over t
            nn = n0 * n0 + n1 * n1
            kf = (lambda s: Fraction(s)) if h.symbolic else float
            base = [rhs * kf(Fraction(n0, nn)), rhs * kf(Fraction(n1, nn))]
            u = (-n1, n0)
            qa = q[0, 0] * u[0] * u[0] + (q[0, 1] + q[1, 0]) * u[0] * u[1] + \
                q[1, 1] * u[1] * u[1]
            lin = 2 * q[0, 0] * base[0] * u[0] + (q[0, 1] + q[1, 0]) * (
                base[0] * u[1] + base[1] * u[0]) + 2 * q[1, 1] * base[1] * \
                u[1] + sum(((C[i] + X[i, 0] * z) * u[i] for i in range(2)), 0)
            t = -lin / (2 * qa)
            p = [base[i] + t * u[i] for i in range(2)]
        h.eq(v, obj(p), "optimal cost on the active rows")
        h.cover("quadratic")
    return f


for s in (True, False):
    for k, t in enumerate(((), (0, ), (1, ), (2, ), (0, 1))):
        R.put(recompute_quadratic(t, s), "recompute_quadratic_%d_%s" % (
            k, "sym" if s else "asym"),
            "right-hand sides, costs and cross terms symbolic")


def solved(sense, cls="GurobiTorchMILP", seed=0):
    """Optimum of a fixed program, and of a program whose data move along
    a symbolic parameter."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        r = np.random.RandomState(seed)
        A = r.randint(-8, 9, (4, 3)) / 4.
        B = r.randint(-8, 9, (4, 2)) / 4.
        d = r.randint(4, 17, 4) / 4.
        c = r.randint(-8, 9, 3) / 4.
        cz = r.randint(-8, 9, 2) / 4.
        dA, dd = r.randint(-4, 5, (4, 3)) / 4., r.randint(-4, 5, 4) / 4.
        dc, dz = r.randint(-4, 5, 3) / 4., r.randint(-4, 5, 2) / 4.
        dB = r.randint(-4, 5, (4, 2)) / 4.
        lo, up = np.array([-1., -2, -1]), np.array([1., .5, 2])
        dl, du = r.randint(-4, 5, 3) / 4., r.randint(-4, 5, 3) / 4.

        def build(t, const):
            """Data at parameter t (tensor scalar)."""
            T = (lambda p, q: tt(p) + t * tt(q))
            mip = g.GurobiTorchMILP(F64)
            x = mip.addVars(3, lb=T(lo, dl), ub=T(up, du))
            z = mip.addVars(2, vtype=GRB.BINARY)
            mip.addMConstr([T(A[:2], dA[:2]), T(B[:2], dB[:2])], [x, z], "<",
                           T(d[:2], dd[:2]))
            mip.addMConstr([T(B[2:3], dB[2:3]), T(A[2:3], dA[2:3])], [z, x],
                           ">", T(-d[2:3], dd[2:3]))
            mip.addLConstr([T(A[3], dA[3]), T(B[3], dB[3])], [x, z], "=",
                           T(np.array(.25), np.array(dd[3])))
            mip.setObjective([T(c, dc), T(cz, dz)], [x, z], .5 + t, sense)
            return mip
        t0 = torch.zeros((), dtype=F64)
        if h.symbolic:
            t0 = h.const(t0)
        t0.requires_grad_(True)
        mip = build(t0, True)
        m = mip.gurobi_model
        m.setParam(GRB.Param.OutputFlag, False)
        m.setParam(GRB.Param.PoolSearchMode, 2)
        m.setParam(GRB.Param.PoolSolutions, 2)
        m.optimize()
        if m.status != GRB.Status.OPTIMAL:
            h.cover("solved")
            return
        v = mip.compute_objective_from_mip_data_and_solution()
        h.eq(v, m.ObjVal, "objective of the solution")
        idx, zs = mip.get_active_constraint_indices_and_binary_val()
        h.eq(pnp(zs), np.array([x.x for x in mip.zeta], dtype=object),
             "binary solution")
        Ar, Az, b = [pnp(q) for q in mip.get_inequality_constraints()]
        xs = np.array([h.scalar(q.x) if h.symbolic else q.x for q in mip.r],
                      dtype=object)
        for i in range(len(b)):
            gap = b[i] - Ar[i].dot(xs) - Az[i].dot(pnp(zs))
            gap = float(gap.c) if isinstance(gap, SR) else float(gap)
            h.true((abs(gap) < 1e-6) == (i in idx), "active row %d" % i)
        (gt, ) = torch.autograd.grad(v, t0)
        gt = h.scalar(gt)
        if m.SolCount > 1:
            v2 = mip.compute_objective_from_mip_data_and_solution(1)
            m.setParam(GRB.Param.SolutionNumber, 1)
            h.eq(v2, m.PoolObjVal, "objective of the second solution")
            h.true(sense * (h.scalar(v2) - h.scalar(v)) >= -1e-6,
                   "second solution is no better")
        # parametric optimum: every feasible point near the optimal binary
        # choice has at least the linearised cost
        eps = 2.**-12
        t = h.real("t", -eps, eps)
        mt = build(h.as_tensor(np.array(t, dtype=object))
                   if h.symbolic else torch.tensor(t, dtype=F64), False)
        val = h.assign(mt.gurobi_model, {z: zs[i] for i, z in enumerate(
            mt.zeta)})
        o = mt.gurobi_model._objective.eval(val)
        o = o if h.symbolic else float(o.c)
        # second-order terms are bounded by 2000 t^2
        h.true(sense * (o - h.scalar(v) - gt * t) >= -2000 * t * t - 1e-9,
               "gradient bounds the optimum")
        h.cover("solved")
    return f


for s in (1, -1):
    for k in range(3):
        R.put(solved(s, seed=k), "solved_%s_%d" % ("min" if s == 1 else "max",
                                                   k),
              "fixed program; symbolic change of all data, every point of the "
              "changed program with the optimal binaries")
    for k in range(3, 8):
        R.put(solved(s, seed=k), "solved_%s_%d" % ("min" if s == 1 else "max",
                                                   k),
              "fixed program; symbolic change of all data, every point of the "
              "changed program with the optimal binaries", tier="thorough")


def inaccurate(sense, rows="both"):
    """A solver whose answer misses its rows by a little."""
    def f(h):
        d = tt([1., .5, .75])
        g, mip, x, a = small(h, "GurobiTorchMILP", d)
        GRB = g.gurobipy.GRB
        c = np.array([2., 1.]) if sense == -1 else np.array([-2., -1.])
        mip.setObjective([tt(c), tt([.25])], [x, a], .5, sense)
        m = mip.gurobi_model
        m.setParam(GRB.Param.OutputFlag, False)
        m.optimize()
        z = m._sols[0][1][a[0]]
        e = h.real("e", 0, .0625)
        sol = dict(m._sols[0][1])
        for v, k in zip(x, {"both": (1, 0), "one": (1, 1)}[rows]):
            sol[v] = sol[v] + e * k
        if h.symbolic:
            sol = {v: SR.const(q) for v, q in sol.items()}
        m._sols[0] = (m._sols[0][0], sol)
        # rows 0 and 2 hold with equality at the optimum
        miss = [e, 0] if rows == "one" else [e, e]
        if rows == "one":
            miss = [3 * e, 0]
        try:
            v = mip.compute_objective_from_mip_data_and_solution()
        except g.IncorrectActiveConstraint:
            h.true(OR([q >= 2.**9 * 1e-6 for q in miss]),
                   "rows missed by less than the last tolerance are found")
            h.cover("given up")
            return
        h.true(near(h.scalar(v), h.scalar(m.ObjVal) if h.symbolic else
                    m.ObjVal, 1e-3 + 1e-9), "objective of the solution")
        h.true(AND([q <= 2.**9 * 1e-6 for q in miss]),
               "only rows within the last tolerance are taken")
        h.cover("found", e > 3e-6)
    return f


for s in (1, -1):
    for rw in ("both", "one"):
        R.put(inaccurate(s, rw), "inaccurate_%s_%s" % (
            "min" if s == 1 else "max", rw), "miss of the rows symbolic")


def partial(what):
    """Programs with rows in one kind of variable only, or without rows."""
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        mip = g.GurobiTorchMIQP(F64)
        x = mip.addVars(2, lb=-GRB.INFINITY)
        a = mip.addVars(2, vtype=GRB.BINARY)
        A, d = h.tensor("A", (2, 2)), h.tensor("d", 2)
        E, D = h.elems(A), h.elems(d)
        v = {"r": x, "z": a}.get(what)
        if v:
            mip.addMConstr([A[:1]], [v], "<", d[:1])
            mip.addMConstr([A[1:]], [v], "=", d[1:])
        M = [pnp(q) for q in mip.get_inequality_constraints()]
        n = 1 if v else 0
        h.true([q.shape for q in M] == [(n, 2), (n, 2), (n, )], "sizes")
        if v:
            i = 0 if what == "r" else 1
            h.eq(M[i], E[:1], "rows")
            h.eq(M[1 - i], np.zeros((1, 2)), "no other entries")
            h.eq(M[2], D[:1], "right-hand side")
            z = [h.binary("z%d" % k) for k in range(2)]
            for act in (set(), {0}):
                P, q = mip.get_active_constraints(act, h.as_tensor(np.array(
                    z, dtype=object)))
                k = [1] + sorted(act)
                Z = np.array(z, dtype=object)
                h.eq(P, E[k] if what == "r" else E[k] * 0, "active rows")
                h.eq(q, D[k] - (0 if what == "r" else E[k].dot(Z)),
                     "active right-hand side")
        Q, c = h.tensor("Q", (2, 2)), h.tensor("c", 2)
        mip.setObjective([Q], [(x, x)], [c], [a], 1.5, GRB.MINIMIZE)
        h.eq(mip.c_constant, 1.5, "constant")
        h.eq(mip.Q_r, h.elems(Q), "quadratic part")
        h.eq(mip.c_zeta, h.elems(c), "linear part")
        h.eq(mip.c_r, np.zeros(2), "no linear part in the others")
        h.cover("partial")
    return f


for w in ("r", "z", "none"):
    R.put(partial(w), "partial_" + w, "rows, costs, binaries symbolic")
