"""Piecewise-linear Lyapunov functions by linear programming."""
import numpy as np
from types import SimpleNamespace as NS
from symx.driver import Registry
from symx import loader
from symx.num import Unsupported
from symx.lib import AND, absv, rnd

HARNESSES = R = Registry()
BOUNDS = ("State dimension 1-3, one to four modes, up to eight vertices; "
          "certificate coefficients, slacks and states symbolic; vertices, "
          "dynamics and equilibrium symbolic in one family of checks and "
          "fixed rationals in the other; fixed rates and weights.")
ASSUMPTIONS = ["real arithmetic for float64",
               "with symbolic data the modelling library is a stand-in that "
               "records affine expressions and relations; with fixed data the "
               "library itself builds them",
               "the program solver is exact"]


class Con:
    def __init__(self, d, eq):
        self.d, self.eq = np.asarray(d, dtype=object).reshape(-1), eq


class Expr:
    """Array expression of the stand-in for cvxpy."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, a):
        self.a = np.asarray(a, dtype=object)

    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    T = property(lambda s: Expr(s.a.T))
    value = property(lambda s: s.a)

    def __getitem__(self, k):
        return Expr(self.a[k])

    def __len__(self):
        return len(self.a)

    def __matmul__(self, o):
        return Expr(self.a @ _raw(o))

    def __rmatmul__(self, o):
        return Expr(_raw(o) @ self.a)

    def __add__(self, o):
        return Expr(self.a + _raw(o))
    __radd__ = __add__

    def __sub__(self, o):
        return Expr(self.a - _raw(o))

    def __rsub__(self, o):
        return Expr(_raw(o) - self.a)

    def __mul__(self, o):
        return Expr(self.a * _raw(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Expr(self.a / _raw(o))

    def __neg__(self):
        return Expr(-self.a)

    def __ge__(self, o):
        return Con(_raw(o) - self.a, False)

    def __le__(self, o):
        return Con(self.a - _raw(o), False)

    def __eq__(self, o):
        return Con(self.a - _raw(o), True)
    __hash__ = None


def _raw(o):
    return o.a if isinstance(o, Expr) else np.asarray(o, dtype=object)


class StandIn:
    """cvxpy with symbolic variables."""
    def __init__(self, h):
        self.h, self.n, self.prob = h, 0, None

    def Variable(self, shape=(), **k):
        if k:
            raise Unsupported("variable attributes %s" % list(k))
        shape = (shape, ) if isinstance(shape, int) else tuple(shape)
        self.n += 1
        return Expr(self.h.reals("var%d" % self.n, shape, -4, 4))

    def Minimize(self, e):
        return (1, e)

    def Maximize(self, e):
        return (-1, e)

    def Problem(self, obj, cons=()):
        p = NS(obj=obj, cons=list(cons), solved=False)

        def solve(*a, **k):
            p.solved = True
            self.prob = p
        p.solve = solve
        return p

    def sum(self, e):
        return Expr(np.sum(_raw(e)))

    def hstack(self, es):
        return Expr(np.concatenate([_raw(e).reshape(-1) for e in es]))

    def multiply(self, a, b):
        return Expr(_raw(a) * _raw(b))

    def __getattr__(self, k):
        raise Unsupported("modelling function %s" % k)


class Case:
    """A program under construction and the conditions it stands for."""
    def __init__(self, h, nx, modes, eqm, e1, e2, xe, real):
        self.h, self.nx, self.e1, self.e2 = h, nx, e1, e2
        m = self.m = loader.module("simple_pwl_lyapunov")
        self.cp = m.cp
        self.real = real
        self.fake = None if real else StandIn(h)
        self.xe = xe
        save = m.cp
        if not real:
            m.cp = self.fake
        try:
            self.d = m.SimplePWLLyapunov(nx, modes, e1, e2, np.array(
                xe, dtype=float if real else object), eqm)
        finally:
            m.cp = save
        d = self.d
        if real:
            self.c = h.reals("c", (nx, modes), -4, 4)
            self.dd = h.reals("d", modes, -4, 4)
            self.s1, self.s2 = (h.reals("s%d" % i, 1, -4, 4)[0]
                                for i in (1, 2))
            self.vars = [(d.c, self.c), (d.d, self.dd),
                         (d.s1, np.array([self.s1], dtype=object)),
                         (d.s2, np.array([self.s2], dtype=object))]
        else:
            self.c, self.dd = d.c.a, d.d.a
            self.s1, self.s2 = d.s1.a.reshape(-1)[0], d.s2.a.reshape(-1)[0]
        # expected conditions: (expression, is equality)
        self.ex = [(-self.s1, False), (-self.s2, False),
                   (self.V(eqm, xe), True)]

    def V(self, i, x):
        return sum(a * b for a, b in zip(self.c[:, i], x)) + self.dd[i]

    def vdot(self, i, x, A, g):
        f = np.asarray(A, dtype=object).dot(x) + g
        return sum(a * b for a, b in zip(self.c[:, i], f)) + \
            self.e2 * self.V(i, x)

    def arr(self, a):
        return np.array(a, dtype=float if self.real else object)

    def derivative(self, i, vs, A, g):
        self.d.add_lyapunov_derivative_in_mode(
            i, self.arr(vs), self.arr(A), self.arr(g))
        self.ex += [(self.vdot(i, v, A, g) - self.s1, False) for v in vs]

    def positivity(self, i, vs, sg):
        self.d.add_lyapunov_positivity_in_mode(i, self.arr(vs), np.array(sg))
        self.ex += [(self.e1 * sum(s * (a - b) for s, a, b in zip(
            sg, v, self.xe)) - self.V(i, v) - self.s2, False) for v in vs]

    def continuity(self, i, j, vs):
        self.d.add_continuity_constraint(i, j, self.arr(vs))
        self.ex += [(self.V(i, v) - self.V(j, v), True) for v in vs]

    def evaluate(self, e):
        """Value of a library expression at the symbolic variables."""
        own = {v.id for v, _ in self.vars}
        for v in e.variables():
            if v.id not in own:
                raise Unsupported("auxiliary variables")
        if not e.is_affine():
            raise Unsupported("expression that is not affine")
        for v, _ in self.vars:
            v.value = np.zeros(v.shape)
        base = np.asarray(e.value, dtype=float).reshape(-1)
        r = base.astype(object)
        for v, s in self.vars:
            for k in np.ndindex(*v.shape):
                z = np.zeros(v.shape)
                z[k] = 1
                v.value = z
                co = np.asarray(e.value, dtype=float).reshape(-1) - base
                r = r + co * s[k]
            v.value = np.zeros(v.shape)
        return r

    def got(self, cons):
        r = []
        for c in cons:
            if not self.real:
                if isinstance(c, Con):
                    r += [(v, c.eq) for v in c.d]
                elif isinstance(c, (bool, np.bool_)):
                    self.h.true(bool(c), "no constant relation fails")
                else:
                    raise Unsupported("constraint %s" % type(c))
                continue
            n = type(c).__name__
            if n in ("Equality", "Zero"):
                r += [(v, True) for v in self.evaluate(c.expr)]
            elif n in ("Inequality", "NonPos"):
                r += [(v, False) for v in self.evaluate(c.expr)]
            else:
                raise Unsupported("constraint %s" % n)
        return r

    def solve(self, w):
        """Constraints, objective and results of solving."""
        if not self.real:
            m = self.m
            save, m.cp = m.cp, self.fake
            try:
                r = self.d.solve(w)
            finally:
                m.cp = save
            p = self.fake.prob
            if p is None or not p.solved:
                self.h.fail("the program is solved")
                return None
            sg, e = p.obj
            return p.cons, _raw(e).reshape(-1), sg, r
        P = self.cp.Problem
        rec = []
        save = P.solve
        P.solve = lambda s, *a, **k: rec.append(s)
        try:
            r = self.d.solve(w)
        finally:
            P.solve = save
        if not rec:
            self.h.fail("the program is solved")
            return None
        o = rec[-1].objective
        sg = -1 if type(o).__name__ == "Maximize" else 1
        # Maximize keeps the expression to be maximised
        return (list(rec[-1].constraints), self.evaluate(o.args[0]), sg, r)


def holds(e, eq, t=0):
    return AND(e <= t, e >= -t) if eq else e <= t


def same(h, k, w=.25):
    """The program is exactly the vertex conditions."""
    s = k.solve(w)
    if s is None:
        return
    cons, obj, sg, r = s
    h.true(len(obj) == 1, "a scalar objective")
    h.eq(sg * obj[0], (1 - w) * k.s1 + w * k.s2, "objective")
    if not k.real:
        h.true(len(r) == 4, "four results")
        for a, b in zip(r, (k.c, k.dd, k.s1, k.s2)):
            h.eq(np.asarray(a, dtype=object).reshape(-1),
                 np.asarray(b, dtype=object).reshape(-1), "results")
    got = k.got(cons)
    which = h.choice("which", 2)
    if which == 0:
        h.assume([holds(e, q) for e, q in got])
        for e, q in k.ex:
            h.true(holds(e, q, 1e-6), "every vertex condition is imposed")
        h.cover("solution")
    else:
        h.assume([holds(e, q) for e, q in k.ex])
        for e, q in got:
            h.true(holds(e, q, 1e-6), "only vertex conditions are imposed")
        h.cover("conditions")


def symbolic(nx, modes, eqm, e1, e2, der, pos, cont, w):
    """der, pos, cont: lists of (modes, number of vertices)."""
    def f(h):
        xe = h.reals("xe", nx, -1, 1)
        k = Case(h, nx, modes, eqm, e1, e2, xe, False)
        for n, (i, nv) in enumerate(der):
            v = h.reals("dv%d" % n, (nv, nx), -2, 2)
            A = h.reals("A%d" % n, (nx, nx), -2, 2)
            g = h.reals("g%d" % n, nx, -2, 2)
            k.derivative(i, v, A, g)
        for n, (i, nv, sg) in enumerate(pos):
            v = h.reals("pv%d" % n, (nv, nx), -2, 2)
            h.assume([(a - b) * s >= 0 for r in v
                      for a, b, s in zip(r, xe, sg)])
            k.positivity(i, v, sg)
        for n, (i, j, nv) in enumerate(cont):
            k.continuity(i, j, h.reals("cv%d" % n, (nv, nx), -2, 2))
        same(h, k, w)
    return f


for n, a in enumerate((
        (1, 1, 0, .125, .25, [(0, 2)], [(0, 1, (1, ))], [], .25),
        (2, 2, 1, .25, .125, [(0, 3)], [], [(0, 1, 2)], .5),
        (2, 2, 0, .5, .125, [(1, 2)], [(0, 3, (1, -1))], [], .75),
        (2, 3, 2, .5, .25, [], [(1, 2, (-1, -1)), (2, 1, (-1, 1))],
         [(2, 0, 3)], .375),
        (1, 2, 1, .25, .5, [(0, 2), (1, 3)], [(1, 2, (-1, ))], [(1, 0, 1)],
         .25),
        (3, 2, 0, .125, .25, [(0, 1)], [(1, 1, (1, -1, 1))], [(0, 1, 4)],
         .25))):
    R.put(symbolic(*a), "symbolic_%d" % n, str(a))


def square(lo, up):
    import itertools
    return [list(v) for v in itertools.product(*zip(lo, up))]


def quadrants(nx):
    """Signs of the orthants."""
    import itertools
    return list(itertools.product((1, -1), repeat=nx))


def fixed(nx, cells, xe, w, e1, e2):
    """Program for a partition of a box around xe into orthants."""
    def f(h):
        sg = quadrants(nx)[:cells]
        k = Case(h, nx, cells, 0, e1, e2, np.array(xe), True)
        for i, s in enumerate(sg):
            lo = [min(x, x + a * b) for x, a, b in zip(xe, s, w)]
            up = [max(x, x + a * b) for x, a, b in zip(xe, s, w)]
            v = square(lo, up)
            k.derivative(i, v, rnd(11 + i, (nx, nx)) - np.eye(nx),
                         rnd(31 + i, nx) * 0)
            k.positivity(i, v, s)
        for i in range(cells):
            for j in range(i):
                if sum(a != b for a, b in zip(sg[i], sg[j])) == 1:
                    q = [[x if a != b else x + a * c if t == 1 else x
                          for x, a, b, c, t in zip(xe, sg[i], sg[j], w, tt)]
                         for tt in np.ndindex(*[1 if a != b else 2 for a, b
                                                in zip(sg[i], sg[j])])]
                    k.continuity(i, j, q)
        same(h, k)
    return f


for n, a in enumerate(((1, 2, [.5], [1.], .125, .25),
                       (2, 2, [0., .25], [1., .5], .25, .125),
                       (2, 4, [.25, -.5], [.5, 1.], .5, .25),
                       (3, 2, [.25, -.5, 0.], [.5, 1., 1.], .5, .25),
                       (3, 4, [0., 0., 0.], [.5, 1., 1.], .5, .25))):
    R.put(fixed(*a), "library_%d_%d" % a[:2], str(a))


def conclusion(nx, verts, sg, xe, A, g, e1, e2, other=None):
    """Solutions are certificates on the whole polytope."""
    def f(h):
        k = Case(h, nx, 2, 0, e1, e2, np.array(xe), True)
        k.derivative(0, verts, A, g)
        k.positivity(0, verts, sg)
        if other is not None:
            k.continuity(0, 1, other)
        s = k.solve(.5)
        if s is None:
            return
        h.assume([holds(e, q) for e, q in k.got(s[0])])
        which = h.choice("which", 3 if other is not None else 2)
        vs = other if which == 2 else verts
        w = h.reals("w", len(vs), 0, 1)
        h.assume(sum(w) == 1)
        x = np.array([sum(a * v[j] for a, v in zip(w, vs))
                      for j in range(nx)], dtype=object)
        if which == 0:
            # the conditions are affine on the polytope
            h.true(k.V(0, x) >= e1 * sum(
                absv(a - b) for a, b in zip(x, xe)) - k.s2 - 1e-6,
                "positive on the polytope")
        elif which == 1:
            h.true(k.vdot(0, x, A, g) <= k.s1 + 1e-6,
                   "decreasing on the polytope")
        else:
            d = k.V(0, x) - k.V(1, x)
            h.true(AND(d <= 1e-6, d >= -1e-6), "continuous on the common face")
        h.cover("case %d" % which)
    return f


R.put(conclusion(1, [[.25], [1.]], (1, ), [.25], [[-1.5]], [.375], .125, .5,
                 [[1.]]), "conclusion_1", "coefficients and state symbolic")
R.put(conclusion(2, [[0., 0.], [1., 0.], [.5, 1.]], (1, 1), [0., 0.],
                 [[-1., .5], [.25, -.75]], [.25, -.5], .25, .125,
                 [[1., 0.], [.5, 1.]]), "conclusion_triangle",
      "coefficients and state symbolic")
R.put(conclusion(2, [[.25, -1.], [1., -1.], [1., -.5], [.25, -.5]], (1, -1),
                 [.25, -.5], [[-1., .5], [.25, -.75]], [.25, -.5], .5, .25,
                 [[.25, -1.], [1., -1.]]), "conclusion_box",
      "coefficients and state symbolic")
R.put(conclusion(3, [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., -1.]],
                 (1, 1, -1), [0., 0., 0.],
                 [[-1., .5, 0.], [.25, -.75, .5], [0., 1., -2.]],
                 [0., 0., 0.], .25, .125,
                 [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]]),
      "conclusion_3", "coefficients and state symbolic")
R.put(conclusion(2, [[.25, -1.], [1., -1.], [1., -.5], [.25, -.5]], (1, -1),
                 [.25, -.5], [[-1., .5], [.25, -.75]], [.25, -.5], .5, .25,
                 [[.25, -1.], [1., -1.], [.625, -1.]]), "conclusion_points",
      "coefficients and state symbolic")
