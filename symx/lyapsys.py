"""Closed-loop systems, transforms and candidates shared by several checks."""
import numpy as np
import torch
from . import loader
from .lib import (AND, OR, IMPLIES, near, mknet, netfun, preacts, pnp, tt, absv,
                  rnd, F64)

LO, UP = [-1., -.75, -.5], [.75, 1., 1.25]
ULO, UUP = [-.5, -1.], [1., .5]


def inbox(h, name, lo, up):
    v = h.reals(name, len(lo), float(min(lo)), float(max(up)))
    h.assume([AND(a <= b, b <= c) for a, b, c in zip(lo, v, up)])
    return v


def isin(x, lo, up, t=0):
    return AND([AND(v >= a - t, v <= b + t) for v, a, b in zip(x, lo, up)])


class Lin:
    """Linear expression M @ x of the stand-in for cvxpy."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, M=None):
        self.M = M

    def __rmatmul__(self, M):
        return Lin(M if self.M is None else M @ self.M)

    def __neg__(self):
        return Lin(-self.M)

    def __le__(self, q):
        return (self.M, q)

    def __ge__(self, q):
        return (-self.M, -q)


def _num(a):
    return np.array([[float(v) for v in r] for r in np.atleast_2d(
        pnp(a) if isinstance(a, torch.Tensor) else np.asarray(
            a, dtype=object))])


def linear_solver(n):
    """Stand-in for cvxpy on linear programs with fixed data."""
    from types import SimpleNamespace as NS

    def Problem(obj, cons=()):
        s, e = obj
        p = NS(value=None, status=None)

        def solve(**k):
            from scipy.optimize import linprog
            P = np.vstack([_num(r[0]) for r in cons])
            q = np.concatenate([_num(r[1]).reshape(-1) for r in cons])
            c = _num(e.M).reshape(-1)
            r = linprog(-s * c, A_ub=P, b_ub=q, bounds=[(None, None)] * n,
                        method="highs")
            p.status = "optimal"
            p.value = round(float(c @ r.x) * 2.**40) / 2.**40
            return p.value
        p.solve = solve
        return p
    return NS(GUROBI="GUROBI", Problem=Problem, Variable=lambda *a, **k: Lin(),
              Maximize=lambda e: (1, e), Minimize=lambda e: (-1, e))


class System:
    """succ(x): list of (condition, next state or derivative)."""
    def __init__(self, h, kind, nx, discrete=True, method="IA", equ=None,
                 cmethod=None):
        self.h, self.nx, self.kind = h, nx, kind
        r = loader.module("relu_system")
        hy = loader.module("hybrid_linear_system")
        mu = loader.module("mip_utils")
        M = getattr(mu.PropagateBoundsMethod, method)
        T = h.as_tensor
        lo, up = LO[:nx], UP[:nx]
        self.lo, self.up = np.array(lo), np.array(up)
        xe = np.array([.25, -.125, .5][:nx]) if equ is None else equ
        self.xe = xe
        self.txe = T(xe) if equ is not None else tt(xe)
        a = [F64, tt(lo), tt(up)]
        self.net, self.ms = None, None
        one = lambda y: [(True, y)]  # noqa
        if kind == "auto":
            n = self.net = mknet((nx, 2, nx), 118 if nx == 1 else 61, .1)
            self.s = r.AutonomousReLUSystem(*a, n, M)
            self.succ = lambda x: one(netfun(n, x))
        elif kind == "auto_eq":
            n = self.net = mknet((nx, 2, nx), 62, .1)
            self.s = r.AutonomousReLUSystemGivenEquilibrium(
                *a, n, self.txe, discrete, M)
            self.succ = lambda x: one(netfun(n, x) - netfun(n, xe) + (
                xe if discrete else 0))
        elif kind == "auto_res":
            n = self.net = mknet((nx, 2, nx), 63, 0)
            self.s = r.AutonomousResidualReLUSystemGivenEquilibrium(
                *a, n, self.txe, discrete, M)
            self.succ = lambda x: one(netfun(n, x) - netfun(n, xe) + (
                x if discrete else 0))
        elif kind in ("hybrid", "hybrid1", "hybrid_lin"):
            s = self.s = hy.AutonomousHybridLinearSystem(nx, F64)
            save, hy.cp = hy.cp, linear_solver(nx)
            I = np.eye(nx)
            self.ms = []
            k = 1 if kind == "hybrid1" else 2
            for i in range(k):
                l, p = self.lo.copy(), self.up.copy()
                if k == 2:
                    (p if i == 0 else l)[0] = .25
                P, q = np.vstack((I, -I)), np.concatenate((p, -l))
                A, c = rnd(71 + i, (nx, nx)), rnd(73 + i, nx)
                c[-1] = -c[-1] if i == 0 else c[-1]
                if kind == "hybrid_lin":
                    c = c * 0
                try:
                    s.add_mode(tt(A), tt(c), tt(P), tt(q))
                except BaseException:
                    hy.cp = save
                    raise
                self.ms.append((A, c, P, q))
            hy.cp = save
            self.succ = lambda x: [
                (AND([v <= b for v, b in zip(P.dot(x), q)]), A.dot(x) + c)
                for A, c, P, q in self.ms]
        elif kind in ("pend", "pend_lin"):
            # learned pendulum in continuous time with a controller
            fs = loader.module("feedback_system")
            pm = loader.module("examples.pendulum.pendulum")
            assert nx == 2 and not discrete
            self.lo, self.up = np.array([2.5, -.75]), np.array([4., 1.])
            net = self.net = mknet((3, 2, 1), 164, .1)
            p = pm.PendulumReluContinuousTime(
                F64, tt(self.lo), tt(self.up), tt([-1.5]), tt([2.]), net)
            ue = np.array([0.])
            self.xe = np.array([np.pi, 0.])
            self.txe = tt(self.xe)
            if kind == "pend":
                c = self.ctrl = mknet((2, 1, 1), 165, .1)
                ul, uu = np.array([-np.inf]), np.array([np.inf])
                cf = lambda x: netfun(c, x)  # noqa
            else:
                c = self.ctrl = torch.nn.Linear(2, 1, dtype=F64)
                W, b = rnd(166, (1, 2)), rnd(167, 1)
                c.weight = torch.nn.Parameter(tt(W))
                c.bias = torch.nn.Parameter(tt(b))
                ul, uu = np.array([-.25]), np.array([.5])
                cf = lambda x: W.dot(x) + b  # noqa
            self.s = fs.FeedbackSystem(p, c, self.txe, tt(ue), ul, uu)
            self.s.controller_network_bound_propagate_method = M if \
                cmethod is None else getattr(mu.PropagateBoundsMethod,
                                             cmethod)
            p.network_bound_propagate_method = M
            xe_, self.ubox = self.xe, ([-1.5], [2.])

            def succ(x):
                from .lib import vmax, vmin
                u = cf(x) - cf(xe_) + ue
                if kind == "pend_lin":
                    u = np.array([vmax(vmin(u[0], uu[0]), ul[0])],
                                 dtype=object)
                a = netfun(net, np.concatenate((x, u))) - netfun(
                    net, np.concatenate((xe_, ue)))
                return one(np.array([x[1], a[0]], dtype=object))
            self.succ = succ
            self.cf = lambda x: cf(x) - cf(xe_) + ue
        elif kind in ("feedback", "feedback_lin"):
            fs = loader.module("feedback_system")
            net = self.net = mknet((nx + 1, 2, nx), 64, .1)
            ue = np.array([.25])
            p = r.ReLUSystemGivenEquilibrium(
                *a, tt(ULO[:1]), tt(UUP[:1]), net, self.txe, tt(ue), discrete)
            if kind == "feedback":
                c = self.ctrl = mknet((nx, 1, 1), 65, .1)
                cf = lambda x: netfun(c, x)  # noqa
            else:
                c = self.ctrl = torch.nn.Linear(nx, 1, dtype=F64)
                W, b = rnd(66, (1, nx)), rnd(67, 1)
                c.weight = torch.nn.Parameter(tt(W))
                c.bias = torch.nn.Parameter(tt(b))
                cf = lambda x: W.dot(x) + b  # noqa
            INF = np.array([np.inf])
            lo_u, up_u = (-INF, INF) if kind == "feedback" else (
                np.array([-.25]), np.array([.75]))
            self.s = fs.FeedbackSystem(p, c, self.txe, tt(ue), lo_u, up_u)
            self.s.controller_network_bound_propagate_method = M
            p.network_bound_propagate_method = M

            def succ(x):
                from .lib import vmax, vmin
                u = cf(x) - cf(xe) + ue
                if kind != "feedback":
                    u = np.array([vmax(vmin(u[0], up_u[0]), lo_u[0])],
                                 dtype=object)
                    self.u_ok = True
                return one(netfun(net, np.concatenate((x, u))) - netfun(
                    net, np.concatenate((xe, ue))) + (xe if discrete else 0))
            self.succ = succ
            self.cf = lambda x: cf(x) - cf(xe) + ue
        else:
            raise RuntimeError(kind)

    def inside(self, x):
        """Interior of the box."""
        return AND([AND(v > a, v < b) for v, a, b in zip(
            x, self.lo, self.up)])

    def point(self, name="x"):
        return inbox(self.h, name, self.lo, self.up)

    def ok(self, x):
        """States where the program of the loop is defined."""
        if self.kind in ("feedback", "pend"):
            u = self.cf(x)
            l, p = (ULO[:1], UUP[:1]) if self.kind == "feedback" else \
                self.ubox
            return AND([AND(v >= a, v <= b) for v, a, b in zip(u, l, p)])
        return True


TRANS = {
    "none": None,
    "eye": np.eye,
    "sq": lambda n: rnd(81, (n, n)) + 2 * np.eye(n),
    "tall": lambda n: np.vstack((rnd(82, (n, n)) + 2 * np.eye(n),
                                 rnd(83, (1, n)))),
    "diag": lambda n: np.diag([.5, 2., -1.5][:n]),
}


def transform(name, n):
    f = TRANS[name]
    if f is None:
        return None, np.eye(n)
    m = f(n)
    return tt(m), m


def candidate(net, x, xe, lam, R):
    e = R.dot(np.asarray(x, dtype=object) - xe)
    return (netfun(net, x) - netfun(net, xe))[0] + lam * sum(
        absv(v) for v in e)


def l1err(x, xe, R):
    return sum(absv(v) for v in R.dot(np.asarray(x, dtype=object) - xe))


def params(*nets):
    return [pnp(p).copy() for n in nets if n is not None
            for p in n.parameters()]


def untouched(h, nets, p0):
    for a, b in zip(p0, params(*nets)):
        h.eq(a, b, "the networks are left alone")


def nunits(net):
    return sum(l.out_features for l in net if isinstance(
        l, torch.nn.Linear)) - net[-1].out_features


def consistent(net, x, pat, tol=0):
    """pat: list of 0/1 for each unit; the slope of unit j is that of its
    active side iff pat[j]."""
    r, k = [], 0
    for layer in preacts(net, x):
        for v in layer:
            p = pat[k]
            k += 1
            if isinstance(p, (int, bool)):
                r.append(v >= -tol if p else v <= tol)
            else:
                r.append(AND(IMPLIES(p > .5, v >= -tol),
                             IMPLIES(p < .5, v <= tol)))
    return AND(r)


def directional(net, pat, d):
    """Derivative of the network's outputs along d for the one-sided slopes
    chosen by pat."""
    from .lib import where
    z, k = np.asarray(d, dtype=object), 0
    for l in net:
        if isinstance(l, torch.nn.Linear):
            z = pnp(l.weight).dot(z)
        else:
            a = getattr(l, "negative_slope", 0.)
            y = []
            for v in z:
                p = pat[k]
                k += 1
                y.append((v if p else v * a) if isinstance(p, (int, bool))
                         else where(p > .5, v, v * a))
            z = np.array(y, dtype=object)
    return z


def l1consistent(x, xe, R, sgn, tol=0):
    e = R.dot(np.asarray(x, dtype=object) - xe)
    r = []
    for v, p in zip(e, sgn):
        if isinstance(p, (int, bool)):
            r.append(v >= -tol if p else v <= tol)
        else:
            r.append(AND(IMPLIES(p > .5, v >= -tol),
                         IMPLIES(p < .5, v <= tol)))
    return AND(r)


def l1directional(R, sgn, d):
    from .lib import where
    r = 0
    for v, p in zip(R.dot(np.asarray(d, dtype=object)), sgn):
        r = r + ((v if p else -v) if isinstance(p, (int, bool))
                 else where(p > .5, v, -v))
    return r


def patterns(n):
    return [[(i >> j) & 1 for j in range(n)] for i in range(2**n)]
