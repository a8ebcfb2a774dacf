"""Hybrid linear systems."""
import itertools
import types

import numpy as np
import torch
from symx.driver import Registry
from symx.history import same
from symx.lyapsys import linear_solver
from symx import loader
from symx.lib import (AND, OR, NOT, IMPLIES, where, vmax, vmin, near, tt, leq,
                      mic_conds, mic_out, patterns, rnd, sqrt, F64)

HARNESSES = R = Registry()
BOUNDS = ("Systems of one to four modes in state dimension 1-3 and input "
          "dimension 1-2 on fixed polytopes (intervals, boxes, triangles, "
          "overlapping and disjoint); mode matrices, offsets, states, "
          "inputs and completions symbolic in [-2,2] (slacks in [-9,9]); "
          "horizon 0-3; partitions of 1-3 cells in each of up to 3 "
          "directions.")
ASSUMPTIONS = ["real arithmetic for float64",
               "linear programs over the fixed polytopes are solved exactly; "
               "for symbolic mode matrices the optimum is any number no worse than "
               "the value at the free point of the harness",
               "the initial value solver is replaced by a stand-in that "
               "returns an arbitrary trajectory; its contract is not checked"]


def box(lo, up):
    n = len(lo)
    return (np.vstack((np.eye(n), -np.eye(n))),
            np.concatenate((np.array(up, float), -np.array(lo, float))))


TRI = (np.array([[1., 1], [-1, 0], [0, -1]]), np.array([1., .5, .25]))
TRI2 = (np.array([[-1., -1], [1, 0], [0, 1]]), np.array([-1., 1.5, 1.25]))
# polytopes of the modes over the listed variables
GEO = {
    "int1": [box([-1], [.5])],
    "int2": [box([-1], [.25]), box([.25], [1.5])],
    "int2over": [box([-1], [.5]), box([0], [1.5])],
    "int2gap": [box([-1], [-.5]), box([.5], [1.5])],
    "int3": [box([-1], [0]), box([0], [.5]), box([.5], [2])],
    "int4": [box([-1.5], [-.5]), box([-.5], [.25]), box([.25], [.5]),
             box([.5], [2])],
    "boxes4": [box([-1, -1], [0, .25]), box([-1, .25], [0, 1]),
               box([0, -1], [1, .5]), box([0, .5], [1, 2])],
    "cubes": [box([-1] * 4, [0, 1, 1, 1]), box([0] + [-1] * 3, [1] * 4)],
    "tri": [TRI, TRI2],
    "boxes": [box([-1, -1], [0, 1]), box([0, -1], [1, .5])],
    "boxes3": [box([-1, -1], [0, 1]), box([0, -1], [1, 0]),
               box([0, 0], [1, 1])],
    "tri3": [(np.array([[1., 1, 0], [-1, 0, 0], [0, -1, 0], [0, 0, 1],
                        [0, 0, -1]]), np.array([1., .5, .25, 1, 0])),
             box([-.5, -.25, -1], [.5, .5, 0])],
}




def dyn(h, nx, nu, modes, scale=2):
    A = [h.tensor("A%d" % i, (nx, nx), -scale, scale) for i in range(modes)]
    B = [h.tensor("B%d" % i, (nx, nu), -scale, scale)
         for i in range(modes)] if nu else None
    c = [h.tensor("c%d" % i, nx, -scale, scale) for i in range(modes)]
    return A, B, c


class Lin:
    """Affine expression M @ x of the stand-in for cvxpy."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, M=None):
        self.M = M

    def __rmatmul__(self, M):
        return Lin(M if self.M is None else M @ self.M)

    def __matmul__(self, M):
        return Lin(M)

    def __mul__(self, o):
        raise NotImplementedError

    def __neg__(self):
        return Lin(-self.M)

    def __le__(self, q):
        return (self.M, q)

    def __ge__(self, q):
        return (-self.M, -q)

    def val(self, y):
        M = np.asarray(self.M, dtype=object)
        return M.dot(y)


def cp_standin(h, z, n):
    """The optimum is attained at some point of the set and no worse than at
    z when z is in the set (z is a free variable of the harness)."""
    st = types.SimpleNamespace(GUROBI="GUROBI", k=0)
    def Problem(obj, cons=()):
        s, e = obj
        rows = list(cons) if isinstance(cons, (list, tuple)) and not (
            isinstance(cons, tuple)) else [cons]
        p = types.SimpleNamespace(value=None, status=None)

        def solve(**k):
            st.k += 1
            p.status = "optimal"
            P = np.vstack([np.asarray(r[0], dtype=float) for r in rows])
            q = np.concatenate([np.asarray(r[1], dtype=float).reshape(-1)
                                for r in rows])
            if not h.symbolic:
                from scipy.optimize import linprog
                c = np.asarray(e.M, dtype=float).reshape(-1)
                r = linprog(-s * c, A_ub=P, b_ub=q,
                            bounds=[(None, None)] * n, method="highs")
                p.value = float(c @ r.x)
                h.real("sol%d" % st.k, -99, 99)
                return p.value
            val = h.real("sol%d" % st.k, -99, 99)
            zin = AND([a <= b for a, b in zip(P.dot(z), q)])
            h.assume(IMPLIES(zin, s * val >= s * e.val(z)))
            p.value = val
            return p.value
        p.solve = solve
        return p
    st.Problem = Problem
    st.Variable = lambda *a, **k: Lin()
    st.Maximize = lambda e: (1, e)
    st.Minimize = lambda e: (-1, e)
    return st


def system(h, geo, nx, nu, A, B, c, tens=True):
    m = loader.module("hybrid_linear_system")
    s = m.HybridLinearSystem(nx, nu, F64)
    for i, (P, q) in enumerate(GEO[geo]):
        s.add_mode(A[i], B[i], c[i], tt(P), tt(q))
    return s


def auto(h, geo, nx, A, g, z):
    m = loader.module("hybrid_linear_system")
    save = m.cp
    m.cp = cp_standin(h, z, nx)
    try:
        s = m.AutonomousHybridLinearSystem(nx, F64)
        for i, (P, q) in enumerate(GEO[geo]):
            s.add_mode(A[i], g[i], tt(P), tt(q))
    finally:
        m.cp = save
    return s


def member(h, geo, v, tol=0.):
    return [AND([a <= b + tol for a, b in zip(P.dot(v), q)])
            for P, q in GEO[geo]]


def image(h, A, B, c, i, x, u):
    y = h.elems(A[i]).dot(x) + h.elems(c[i])
    if B is not None:
        y = y + h.elems(B[i]).dot(u)
    return y


def check_mic(h, c, geo, A, B, g, x, u, K, extra, tag):
    """Feasible exactly at the points of a mode, with that mode's image."""
    v = np.concatenate((x, u)) if u is not None else x
    inside = member(h, geo, v)
    ns = len(v) * K
    s = h.reals("s", ns, -9, 9)
    nx = len(x)

    def slack(i):
        o = []
        for j in range(K):
            o += [x[k] if i == j else 0. for k in range(nx)]
        if u is not None:
            for j in range(K):
                o += [u[k] if i == j else 0. for k in range(len(u))]
        return o
    tt_ = 1e-6
    for b in patterns(K):
        ok = AND(mic_conds(h, c, list(v), list(s), list(b)))
        if sum(b) != 1:
            h.true(NOT(ok), tag + "binary %s infeasible" % (b, ))
            continue
        i = b.index(1)
        w = slack(i)
        full = AND(mic_conds(h, c, list(v), w, list(b)))
        h.true(IMPLIES(AND(inside[i], extra), full),
               tag + "points of mode %d are feasible" % i)
        y = image(h, A, B, g, i, x, u)
        h.true(IMPLIES(ok, AND(member(h, geo, v, tt_)[i])),
               tag + "feasible points are in mode %d" % i)
        h.true(IMPLIES(ok, AND([near(a, d) for a, d in zip(s, w)])),
               tag + "slack at mode %d" % i)
        out = mic_out(h, c, list(v), w, list(b))
        for k in range(nx):
            h.eq(out[k], y[k], tag + "image of mode %d" % i)
        h.cover(tag + "mode %d reached" % i, ok)
    h.true(len(out) == nx, tag + "outputs")
    return s


def mic(geo, nx, nu, bounded):
    K = len(GEO[geo])

    def f(h):
        A, B, c = dyn(h, nx, nu, K)
        s = system(h, geo, nx, nu, A, B, c)
        x, u = h.reals("x", nx, -2, 2), h.reals("u", nu, -2, 2)
        kw, extra = {}, True
        if bounded:
            L, U = np.full(nx, -.25), np.full(nx, 1.)
            l, p = np.full(nu, -.5), np.full(nu, .75)
            kw = {"both": dict(x_lo=tt(L), x_up=U, u_lo=l, u_up=tt(p)),
                  "x_lo": dict(x_lo=L), "x_up": dict(x_up=tt(U)),
                  "u_lo": dict(u_lo=tt(l)), "u_up": dict(u_up=p)}[bounded]
            extra = AND(
                [v >= e for v, e in zip(x, L)] if "x_lo" in kw else True,
                [v <= e for v, e in zip(x, U)] if "x_up" in kw else True,
                [v >= e for v, e in zip(u, l)] if "u_lo" in kw else True,
                [v <= e for v, e in zip(u, p)] if "u_up" in kw else True)
        r = s.mixed_integer_constraints(**kw)
        sl = check_mic(h, r, geo, A, B, c, x, u, K, extra, "")
        if bounded:
            for b in patterns(K):
                ok = AND(mic_conds(h, r, list(x) + list(u), list(sl), list(b)))
                t = 1e-6
                h.true(IMPLIES(ok, AND(
                    [v >= e - t for v, e in zip(x, L)]
                    if "x_lo" in kw else True,
                    [v <= e + t for v, e in zip(x, U)]
                    if "x_up" in kw else True,
                    [v >= e - t for v, e in zip(u, l)]
                    if "u_lo" in kw else True,
                    [v <= e + t for v, e in zip(u, p)]
                    if "u_up" in kw else True)), "inside the given bounds")
        for i, (P, q) in enumerate(GEO[geo]):
            ins = member(h, geo, np.concatenate((x, u)))[i]
            h.true(IMPLIES(ins, AND(
                [AND(v >= a, v <= b) for v, a, b in zip(
                    x, s.x_lo[i], s.x_up[i])],
                [AND(v >= a, v <= b) for v, a, b in zip(
                    u, s.u_lo[i], s.u_up[i])])), "ranges of mode %d" % i)
    return f


R.put(mic("tri", 1, 1, None), "constraints_triangles",
      "matrices, point, completion symbolic")
R.put(mic("boxes3", 1, 1, None), "constraints_3",
      "matrices, point, completion symbolic")
R.put(mic("tri3", 2, 1, None), "constraints_2_1",
      "matrices, point, completion symbolic")
R.put(mic("tri3", 1, 2, None), "constraints_1_2",
      "matrices, point, completion symbolic")
for b in ("both", "x_lo", "x_up", "u_lo", "u_up"):
    R.put(mic("boxes", 1, 1, b), "constraints_bounds_" + b,
          "matrices, point, completion symbolic")


def mic_auto(geo, nx, bounded):
    K = len(GEO[geo])

    def f(h):
        A, _, g = dyn(h, nx, 0, K)
        x = h.reals("x", nx, -2, 2)
        s = auto(h, geo, nx, A, g, x)
        kw, extra = {}, True
        L, U = np.full(nx, -.25), np.full(nx, 1.)
        if bounded:
            kw = {"both": dict(x_lo=tt(L), x_up=U), "x_lo": dict(x_lo=L),
                  "x_up": dict(x_up=tt(U))}[bounded]
            extra = AND(
                [v >= e for v, e in zip(x, L)] if "x_lo" in kw else True,
                [v <= e for v, e in zip(x, U)] if "x_up" in kw else True)
        r = s.mixed_integer_constraints(**kw)
        sl = check_mic(h, r, geo, A, None, g, x, None, K, extra, "")
        if bounded:
            for b in patterns(K):
                ok = AND(mic_conds(h, r, list(x), list(sl), list(b)))
                t = 1e-6
                h.true(IMPLIES(ok, AND(
                    [v >= e - t for v, e in zip(x, L)]
                    if "x_lo" in kw else True,
                    [v <= e + t for v, e in zip(x, U)]
                    if "x_up" in kw else True)), "inside the given bounds")
        # ranges
        ins = member(h, geo, x)
        t = 0 if h.symbolic else 1e-7
        for i in range(K):
            lo, up = s.mode_derivative_bounds(i)
            y = h.elems(A[i]).dot(x)
            h.true(IMPLIES(ins[i], AND(
                [AND(v >= a - t, v <= b + t)
                 for v, a, b in zip(y, lo, up)])),
                "bounds of A x in mode %d" % i)
            d = y + h.elems(g[i])
            h.true(IMPLIES(ins[i], AND(
                [AND(v >= a - t, v <= b + t)
                 for v, a, b in zip(d, s.dx_lower, s.dx_upper)])),
                "derivative range")
            h.true(IMPLIES(ins[i], AND(
                [AND(v >= a, v <= b)
                 for v, a, b in zip(x, s.x_lo[i], s.x_up[i])])),
                "range of mode %d" % i)
        h.true(IMPLIES(OR(ins), AND(
            [AND(v >= a, v <= b)
             for v, a, b in zip(x, s.x_lo_all, s.x_up_all)])), "range")
    return f


for geo, nx in (("int1", 1), ("int2", 1), ("int2over", 1), ("int3", 1),
                ("tri", 2), ("boxes", 2)):
    R.put(mic_auto(geo, nx, None), "autonomous_" + geo,
          "matrices, point, completion symbolic")
for b in ("both", "x_lo", "x_up"):
    R.put(mic_auto("int2over", 1, b), "autonomous_bounds_" + b,
          "matrices, point, completion symbolic")


def placed(kind):
    """The rows in a program: binding order of variables."""
    def f(h):
        m = loader.module("hybrid_linear_system")
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        INF = GRB.INFINITY
        mip = g.GurobiTorchMILP(F64)
        if kind == "hybrid":
            nx, nu, geo = 2, 1, "tri3"
            A, B, c = dyn(h, nx, nu, 2)
            s = system(h, geo, nx, nu, A, B, c)
        else:
            nx, nu, geo = 2, 0, "tri"
            A, B, c = dyn(h, nx, 0, 2)
            s = auto(h, geo, nx, A, c, h.reals("zz", nx, -2, 2))
        xv = mip.addVars(nx, lb=-INF, name="x")
        uv = mip.addVars(nu, lb=-INF, name="u") if nu else []
        yv = mip.addVars(nx, lb=-INF, name="y")
        n0 = len(mip.gurobi_model._vars)
        if kind == "hybrid":
            r = s.add_dynamics_constraint(mip, xv, yv, uv, "s", "b")
        else:
            r = s.add_dynamics_constraint(mip, xv, yv, "s", "b", GRB.BINARY)
        M = mip.gurobi_model
        K = 2
        h.true(len(r.slack) == (nx + nu) * K and len(r.binary) == K and len(
            M._vars) == n0 + (nx + nu) * K + K, "new variables")
        h.true(all(v.vtype == "B" for v in r.binary), "binary variables")
        x, y = h.reals("x", nx, -2, 2), h.reals("y", nx, -9, 9)
        u = h.reals("u", nu, -2, 2) if nu else None
        sl = h.reals("s", (nx + nu) * K, -9, 9)
        mic = s.mixed_integer_constraints()
        v = list(x) + (list(u) if nu else [])
        for b in ((1, 0), (0, 1)):
            i = b.index(1)
            val = dict(zip(xv, x))
            val.update(zip(yv, y))
            val.update(zip(uv, u if nu else ()))
            val.update(zip(r.slack, sl))
            val.update(zip(r.binary, b))
            ok = AND(M.feasible_conds(
                val, 0 if h.symbolic else 1e-7, skip_binary=True))
            same = AND(mic_conds(h, mic, v, list(sl), list(b)),
                       [near(a, w, 0 if h.symbolic else 1e-7)
                        for a, w in zip(y, mic_out(
                            h, mic, v, list(sl), list(b)))])
            h.true(IMPLIES(ok, same), "program %d within the set" % i)
            h.true(IMPLIES(same, ok), "set within the program %d" % i)
        h.cover("placed")
    return f


R.put(placed("hybrid"), "program", "matrices, point, completion symbolic")
R.put(placed("autonomous"), "program_autonomous",
      "matrices, point, completion symbolic")


def steps(geo, nx, nu, autonomous):
    K = len(GEO[geo])

    def f(h):
        A, B, c = dyn(h, nx, nu, K)
        x = h.reals("x", nx, -2, 2)
        u = h.reals("u", nu, -2, 2) if nu else None
        v = np.concatenate((x, u)) if nu else x
        tx = h.as_tensor(x)
        if autonomous:
            s = auto(h, geo, nx, A, c, x)
            a = (tx, )
        else:
            s = system(h, geo, nx, nu, A, B, c)
            a = (tx, h.as_tensor(u))
        ins = member(h, geo, v)
        i = s.mode(*a)
        poss = s.possible_dx(*a)
        if i is None:
            h.true(NOT(OR(ins)), "no mode contains the point")
            h.true(len(poss) == 0, "no successor outside the modes")
            if autonomous:
                try:
                    s.step_forward(*a)
                    h.fail("stepping outside the modes")
                except s.StepForwardException:
                    pass
            else:
                h.true(s.step_forward(*a) == (None, None),
                       "no step outside the modes")
            h.cover("outside")
            return
        h.true(isinstance(i, int) and 0 <= i < K, "mode index")
        h.true(ins[i], "mode contains the point")
        h.true(NOT(OR(ins[:i])), "smallest mode")
        r = s.step_forward(*a)
        if not autonomous:
            h.true(r[1] == i, "mode of the step")
            r = r[0]
        y = image(h, A, B, c, i, x, u)
        h.eq(h.elems(r), y, "image")
        if autonomous:
            for j in range(K):
                h.eq(h.elems(s.step_forward(tx, j)), image(
                    h, A, B, c, j, x, u), "image in the given mode")
        # successors: those of the modes that contain the point, in order
        n = 0
        for j in range(K):
            e = image(h, A, B, c, j, x, u)
            if bool(ins[j]):
                h.true(n < len(poss), "successor of mode %d listed" % j)
                h.eq(h.elems(poss[n]), e, "successor of mode %d" % j)
                n += 1
        h.true(n == len(poss), "number of successors")
        h.cover("successors %d" % n)
        # batches
        if autonomous:
            b = s.step_forward(torch.stack((tx, tx)))
        else:
            b, ms = s.step_forward(torch.stack((tx, tx)), torch.stack(
                (a[1], a[1])))
            h.true(list(ms) == [i, i], "modes of the batch")
        for k in range(2):
            h.eq(h.elems(b)[k], y, "batch")
    return f


for geo, nx, nu in (("tri", 1, 1), ("boxes3", 1, 1), ("tri3", 2, 1),
                    ("tri3", 1, 2)):
    R.put(steps(geo, nx, nu, False), "step_%s_%d_%d" % (geo, nx, nu),
          "matrices, point symbolic")
for geo, nx in (("int2", 1), ("int2over", 1), ("int2gap", 1), ("int3", 1),
                ("tri", 2)):
    R.put(steps(geo, nx, 0, True), "step_autonomous_" + geo,
          "matrices, point symbolic")


def batch(h):
    """Different rows of a batch."""
    A, B, c = dyn(h, 1, 1, 2)
    s = system(h, "boxes", 1, 1, A, B, c)
    x, u = h.reals("x", (2, 1), -1, 1), h.reals("u", (2, 1), -1, .5)
    y, ms = s.step_forward(h.as_tensor(x), h.as_tensor(u))
    h.true(tuple(y.shape) == (2, 1) and len(ms) == 2, "shape")
    for k in range(2):
        i = ms[k]
        h.true(member(h, "boxes", np.concatenate((x[k], u[k])))[i], "mode")
        h.eq(h.elems(y)[k], image(h, A, B, c, i, x[k], u[k]), "image")
    h.cover("batch")
    h.cover("different modes", True) if ms[0] != ms[1] else None


R.put(batch, "batch", "matrices, points symbolic")


# ---- cost-to-go
def simulate(h, geo, A, g, x, T, goal, cost):
    """Reference run; each decision is taken on the same conditions."""
    xs, cs = [x], [cost(x)]
    left = False
    for _ in range(T):
        d = xs[-1] - goal if goal is not None else None
        if d is not None and bool((d * d).sum() < 1e-6):
            break
        ins = member(h, geo, xs[-1])
        j = next((j for j in range(len(ins)) if bool(ins[j])), None)
        if j is None:
            left = True
            break
        xs.append(image(h, A, None, g, j, xs[-1], None))
        cs.append(cost(xs[-1]))
    return xs, cs, left


def ctg(geo, nx, T, goal, through, alias=False):
    K = len(GEO[geo])

    def f(h):
        m = loader.module("hybrid_linear_system")
        A, _, g = dyn(h, nx, 0, K, 1.5)
        x = h.reals("x", nx, -1, 1.5)
        s = auto(h, geo, nx, A, g, x)
        gl = h.reals("goal", nx, -1, 1) if goal else None
        if alias:
            cost, ref = (lambda z: z[0]), (lambda z: z[0])
        else:
            cost = lambda z: (z * z).sum() + z[0]  # noqa
            ref = lambda z: (z * z).sum() + z[0]  # noqa
        tx = h.as_tensor(x)
        tg = h.as_tensor(gl) if goal else None
        xs, cs, left = simulate(h, geo, A, g, x, T, gl, ref)
        if through == "direct":
            try:
                tot, tr, costs = m.compute_discrete_time_system_cost_to_go(
                    s, tx, T, cost, tg)
            except (AssertionError, s.StepForwardException):
                h.true(left, "raised though the run stays in the modes")
                h.cover("left")
                return
            h.true(not left, "a run that leaves the modes has no cost")
            pairs = [(h.elems(tr)[:, k], h.elems(costs)[k])
                     for k in range(tr.shape[1])]
            h.eq(h.scalar(tot), sum(cs), "total cost")
            h.true(tuple(tr.shape) == (nx, len(xs)) and costs.shape[0] == len(
                xs), "length")
        else:
            prune = None
            if through == "pruned":
                prune = lambda z: bool(z[0] > .25)  # noqa
            r = m.generate_cost_to_go_samples(
                s, [tx], T, cost, True, tg, prune)
            if left:
                h.true(r == [], "a run that leaves the modes is skipped")
                h.cover("left")
                return
            pairs = [(h.elems(a), h.scalar(b)) for a, b in r]
        k = 0
        for i in range(len(xs)):
            if through == "pruned" and bool(xs[i][0] > .25):
                continue
            h.true(k < len(pairs), "state %d is listed" % i)
            h.eq(pairs[k][0], xs[i], "state %d" % i)
            h.eq(pairs[k][1], sum(cs[i:]), "cost-to-go of state %d" % i)
            k += 1
        h.true(k == len(pairs), "number of states")
        h.eq(h.elems(tx), x, "the start is left alone")
        h.cover("run of %d" % len(xs))
    return f


R.put(ctg("int1", 1, 0, False, "direct"), "cost_0", "run symbolic")
R.put(ctg("int2", 1, 1, False, "direct"), "cost_1", "run symbolic")
R.put(ctg("int2over", 1, 2, False, "direct"), "cost_2", "run symbolic")
R.put(ctg("int1", 1, 2, True, "direct"), "cost_goal", "run, goal symbolic")
R.put(ctg("tri", 2, 1, False, "direct"), "cost_2d", "run symbolic")
R.put(ctg("int2", 1, 1, False, "samples"), "samples_1", "run symbolic")
R.put(ctg("int1", 1, 2, False, "samples"), "samples_2", "run symbolic")
R.put(ctg("int1", 1, 2, True, "pruned"), "samples_pruned",
      "run, goal symbolic")
R.put(ctg("int1", 1, 2, False, "direct", True), "cost_alias",
      "run symbolic; the cost is an entry of the state")
R.put(ctg("int2", 1, 3, False, "direct"), "cost_3", "run symbolic",
      tier="thorough")
R.put(ctg("int2over", 1, 3, True, "samples"), "samples_3", "run symbolic",
      tier="thorough")


def several(h):
    """Samples one after another; runs that leave are skipped."""
    m = loader.module("hybrid_linear_system")
    A, _, g = dyn(h, 1, 0, 1, 1.5)
    x = h.reals("x", (2, 1), -1, 1)
    s = auto(h, "int1", 1, A, g, x[0])
    cost = lambda z: 2 * z[0] + 1  # noqa
    r = m.generate_cost_to_go_samples(
        s, [h.as_tensor(x[0]), h.as_tensor(x[1])], 1, cost, True)
    k = 0
    for i in range(2):
        xs, cs, left = simulate(h, "int1", A, g, x[i], 1, None, cost)
        if left:
            h.cover("skipped")
            continue
        for j in range(2):
            h.true(k < len(r), "listed")
            h.eq(h.elems(r[k][0]), xs[j], "state")
            h.eq(h.scalar(r[k][1]), sum(cs[j:]), "cost-to-go")
            k += 1
    h.true(k == len(r), "number of pairs")
    h.cover("several")


R.put(several, "samples_several", "runs symbolic")


def continuous(goal, through):
    def f(h):
        m = loader.module("hybrid_linear_system")
        nx, geo = 2, "tri"
        A, _, g = dyn(h, nx, 0, 2)
        x = h.reals("x", nx, -1, 1)
        s = auto(h, geo, nx, A, g, x)
        gl = h.reals("goal", nx, -1, 1) if goal else None
        y = h.reals("y", nx + 1, -2, 2)
        Y = h.reals("Y", (nx + 1, 3), -2, 2)
        cost = lambda z: (z * z).sum() + z[0]  # noqa
        log = []

        def ivp(fun, span, y0, *a, **k):
            log.append((fun, span, y0, k))
            ins = member(h, geo, y[:nx])
            try:
                d = fun(0.3, h.nparray(y))
                log.append(d)
            except s.StepForwardException:
                h.true(NOT(OR(ins)), "raised inside the modes")
                log.append(None)
                raise
            return types.SimpleNamespace(y=h.nparray(Y), t=None, status=0)
        save = m.solve_ivp
        m.solve_ivp = ivp
        try:
            if through == "direct":
                r = m.compute_continuous_time_system_cost_to_go(
                    s, h.as_tensor(x), 1.5, cost,
                    h.as_tensor(gl) if goal else None)
            else:
                r = m.generate_cost_to_go_samples(
                    s, [h.as_tensor(x)], 1.5, cost, False,
                    h.as_tensor(gl) if goal else None)
        except s.StepForwardException:
            h.true(through == "direct" and log[1] is None, "raised")
            h.cover("left")
            return
        finally:
            m.solve_ivp = save
        fun, span, y0, k = log[0]
        h.true(tuple(span) == (0, 1.5), "time span")
        h.eq(h.elems(y0) if not isinstance(y0, np.ndarray) else y0,
             np.concatenate((x, [0.])), "initial value")
        if log[1] is None:
            h.true(r == [], "a run that leaves the modes is skipped")
            h.cover("left")
            return
        ins = member(h, geo, y[:nx])
        j = next((j for j in range(2) if bool(ins[j])), None)
        h.true(j is not None, "the derivative outside the modes")
        want = list(image(h, A, None, g, j, y[:nx], None))
        h.eq(np.asarray(log[1], dtype=object), np.array(want + [cost(
            y[:nx])], dtype=object), "derivative")
        ev = k.get("events")
        if goal:
            h.true(len(ev) == 1 and ev[0].terminal, "terminal event")
            e = ev[0](0., h.nparray(y))
            d = y[:nx] - gl
            h.true(IMPLIES(e <= 0, (d * d).sum() <= 1.1e-6),
                   "event at the goal only")
            h.true(IMPLIES((d * d).sum() <= .9e-6, e <= 0),
                   "event at the goal")
        else:
            h.true(not ev, "no event")
        if through == "direct":
            tot, tr, co, sol = r
            h.eq(h.scalar(tot), Y[nx, 2], "total cost")
            pairs = [(h.elems(tr)[:, i], h.elems(co)[i]) for i in range(3)]
        else:
            pairs = [(h.elems(a), h.scalar(b)) for a, b in r]
        h.true(len(pairs) == 3, "number of states")
        for i in range(3):
            h.eq(pairs[i][0], Y[:nx, i], "state")
            h.eq(pairs[i][1], Y[nx, 2] - Y[nx, i], "cost-to-go")
        h.cover("continuous")
    return f


R.put(continuous(False, "direct"), "continuous", "trajectory symbolic")
R.put(continuous(True, "direct"), "continuous_goal", "trajectory symbolic")
R.put(continuous(False, "samples"), "continuous_samples",
      "trajectory symbolic")


# ---- partitions
def partition(nbx, nbu, const, delta):
    def f(h):
        m = loader.module("hybrid_linear_system")
        nx, nu = len(nbx), len(nbu)
        n = nx + nu
        if const:
            lo = np.array([-.3, .1, .7][:n])
            up = np.array([.1, .7, 1.9][:n])
        else:
            lo, up = h.reals("lo", n, -2, 2), h.reals("up", n, -2, 2)
            h.assume([b - a >= .125 for a, b in zip(lo, up)])
        d = np.zeros(n) if not delta else h.reals("delta", n, *delta)
        t = h.as_tensor
        arg = [t(lo[:nx]), t(up[:nx]), t(lo[nx:]), t(up[nx:]),
               torch.tensor(nbx, dtype=torch.int),
               torch.tensor(nbu, dtype=torch.int), t(d[:nx]), t(d[nx:])]
        r = m.partition_state_input_space(*arg)
        nb = list(nbx) + list(nbu)
        N = int(np.prod(nb))
        E = [h.elems(e) for e in r]
        h.true([tuple(e.shape) for e in r] == [
            (N, nx), (N, nu), (N, nx), (N, nx), (N, nu), (N, nu)], "shapes")
        h.true(all(e.dtype == F64 for e in r), "dtypes")
        C = [np.concatenate((a, b)) for a, b in zip(E[0], E[1])]
        Lo = [np.concatenate((a, b)) for a, b in zip(E[2], E[4])]
        Up = [np.concatenate((a, b)) for a, b in zip(E[3], E[5])]
        z = h.reals("z", n, -2, 2)
        inbox = AND([AND(v >= a, v <= b) for v, a, b in zip(z, lo, up)])
        cell = [AND([AND(v >= a, v <= b) for v, a, b in zip(z, L, U)])
                for L, U in zip(Lo, Up)]
        inner = [AND([AND(v > a, v < b) for v, a, b in zip(z, L, U)])
                 for L, U in zip(Lo, Up)]
        if not delta or delta[0] >= 0:
            h.true(IMPLIES(inbox, OR(cell)), "the cells cover the space")
        h.true(IMPLIES(OR(cell), inbox), "cells inside the space")
        if not delta or delta[1] <= 0:
            for i, j in itertools.combinations(range(N), 2):
                h.true(NOT(AND(inner[i], inner[j])),
                       "cells %d and %d overlap" % (i, j))
        tol = 1e-12 if not h.symbolic else 0
        if const:
            tol = 1e-12
        for i in range(N):
            for v, a, b in zip(C[i], Lo[i], Up[i]):
                h.true(AND(v >= a - tol, v <= b + tol), "centre in its cell")
        # each cell is the grid cell of its centre, grown by the fraction
        seen = []
        for i in range(N):
            hit = []
            for k in range(n):
                w = (up[k] - lo[k]) / nb[k]
                hit.append([AND(near(C[i][k], lo[k] + w * (q + .5), 1e-9),
                                near(Lo[i][k], vmax(lo[k], lo[k] + w * q -
                                                    d[k] * w), 1e-9),
                                near(Up[i][k], vmin(up[k], lo[k] + w * (
                                    q + 1) + d[k] * w), 1e-9))
                            for q in range(nb[k])])
            seen.append(hit)
        for idx in itertools.product(*[range(q) for q in nb]):
            h.true(OR([AND([seen[i][k][idx[k]] for k in range(n)])
                       for i in range(N)]), "grid cell %s listed" % (idx, ))
        h.cover("partition")
    return f


R.put(partition((2, ), (3, ), False, None), "partition_2x3",
      "box, point symbolic")
R.put(partition((1, ), (1, ), False, None), "partition_1x1",
      "box, point symbolic")
R.put(partition((2, 2), (2, ), False, None), "partition_2x2x2",
      "box, point symbolic")
R.put(partition((2, ), (2, ), False, (0, .5)), "partition_grown",
      "box, fraction, point symbolic")
R.put(partition((3, ), (1, ), False, (-.25, 0)), "partition_shrunk",
      "box, fraction, point symbolic")
R.put(partition((2, ), (3, ), True, None), "partition_floats",
      "point symbolic, limits -0.3, 0.1, 0.7")


def grown(nx, nu, geo, first):
    """A mode added after the system was asked about its rows and steps
    counts as if it had been there at the start."""
    def f(h):
        m = loader.module("hybrid_linear_system")
        K = len(GEO[geo])
        A, B, c = dyn(h, nx, nu, K)
        x = h.tensor("x", nx, -2, 2)
        u = h.tensor("u", nu, -2, 2)

        def some(k):
            s = m.HybridLinearSystem(nx, nu, F64)
            for i in range(k):
                P, q = GEO[geo][i]
                s.add_mode(A[i], B[i], c[i], tt(P), tt(q))
            return s

        def ask(s, **kw):
            return (s.num_modes, s.mixed_integer_constraints(**kw),
                    s.x_lo_all, s.x_up_all, s.u_lo_all, s.u_up_all,
                    s.possible_dx(x, u), s.mode(x, u), s.step_forward(x, u))
        s = some(first)
        ask(s)
        ask(s, x_lo=np.full(nx, -.125), u_up=np.full(nu, .25))
        for i in range(first, K):
            P, q = GEO[geo][i]
            s.add_mode(A[i], B[i], c[i], tt(P), tt(q))
            if i % 2:
                ask(s)
        w = ask(some(K))
        same(h, ask(s), w, "modes added later")
        same(h, ask(s), w, "asking again gives the same answer")
        h.cover("grown")
    return f


for i, a in enumerate(((1, 1, "tri", 1), (1, 1, "boxes3", 1),
                       (1, 1, "boxes3", 2), (2, 1, "tri3", 1))):
    R.put(grown(*a), "history_%d" % i, "matrices, state, control symbolic")


def grown_auto(nx, geo, first):
    def f(h):
        m = loader.module("hybrid_linear_system")
        K = len(GEO[geo])
        A = [tt(rnd(71 + i, (nx, nx))) for i in range(K)]
        c = [tt(rnd(73 + i, nx)) for i in range(K)]
        x = h.tensor("x", nx, -2, 2)

        def add(s, i):
            P, q = GEO[geo][i]
            s.add_mode(A[i], c[i], tt(P), tt(q))

        def ask(s, **kw):
            return (s.num_modes, s.mixed_integer_constraints(**kw),
                    s.x_lo_all, s.x_up_all,
                    [s.step_forward(x, i) for i in range(s.num_modes)],
                    s.possible_dx(x), s.mode(x))
        save, m.cp = m.cp, linear_solver(nx)
        try:
            s = m.AutonomousHybridLinearSystem(nx, F64)
            for i in range(K):
                if i >= first:
                    ask(s)
                add(s, i)
            t = m.AutonomousHybridLinearSystem(nx, F64)
            for i in range(K):
                add(t, i)
            w = ask(t)
            same(h, ask(s), w, "modes added later")
            same(h, ask(s), w, "asking again gives the same answer")
        finally:
            m.cp = save
        h.cover("grown")
    return f


for i, a in enumerate(((1, "int2", 1), (2, "tri", 1))):
    R.put(grown_auto(*a), "history_autonomous_%d" % i,
          "state symbolic")
R.put(mic("boxes4", 1, 1, None), "constraints_4",
      "matrices, point, completion symbolic")
R.put(mic("cubes", 3, 1, None), "constraints_3_1",
      "matrices, point, completion symbolic")
R.put(mic("cubes", 2, 2, "both"), "constraints_2_2",
      "matrices, point, completion symbolic")
R.put(mic_auto("int4", 1, None), "autonomous_int4",
      "matrices, point, completion symbolic")
R.put(steps("boxes4", 1, 1, False), "step_boxes4_1_1",
      "matrices, point symbolic")
R.put(steps("cubes", 3, 1, False), "step_cubes_3_1",
      "matrices, point symbolic")
R.put(steps("int4", 1, 0, True), "step_autonomous_int4",
      "matrices, point symbolic")
R.put(ctg("int4", 1, 2, True, "direct"), "cost_int4", "run, goal symbolic")
R.put(ctg("boxes3", 2, 2, False, "samples"), "samples_2d", "run symbolic")
