"""Sampling and projection."""
import itertools

import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import AND, OR, IMPLIES, near, Rand, leq, F64

HARNESSES = R = Registry()
BOUNDS = ("Boxes of dimension 1-4 and points symbolic in [-3,3], 1-3 samples, "
          "every value of the generator in [0,1); meshes of 1-4 points in each "
          "of 1-3 directions; polyhedra of 1-4 rows in dimension 1-3.")
ASSUMPTIONS = ["real arithmetic for float64 and float32",
               "the quadratic-program solver returns a minimiser of the "
               "program it is given"]


def box(h, n):
    lo, up = h.tensor("lo", n, -3, 3), h.tensor("up", n, -3, 3)
    l, p = h.elems(lo).copy(), h.elems(up).copy()
    h.assume([a <= b for a, b in zip(l, p)])
    return lo, up, l, p


def inbox(n, k):
    def f(h):
        u = loader.module("utils")
        lo, up, l, p = box(h, n)
        with Rand(h) as r:
            s = u.uniform_sample_in_box(lo, up, k)
        h.true(tuple(s.shape) == (k, n) and s.dtype == F64, "shape")
        S = h.elems(s)
        for i in range(k):
            h.ge(S[i], l, "above the lower bound")
            h.le(S[i], p, "below the upper bound")
        h.eq(h.elems(lo), l, "lo unchanged")
        h.eq(h.elems(up), p, "up unchanged")
        # uniform: an affine bijection of independent generator values
        log = np.concatenate([v.reshape(-1) for v in r.log])
        h.true(len(log) == k * n, "one number for each entry")
        if n == 1 and k == 1:
            h.eq(S[0, 0], l[0] + log[0] * (p[0] - l[0]), "affine in the number")
        h.cover("samples")
    return f


def reach(h):
    """Every point of the box is a sample (for some generator value)."""
    u = loader.module("utils")
    lo, up, l, p = box(h, 2)
    h.assume([b - a >= .01 for a, b in zip(l, p)])
    with Rand(h) as r:
        s = h.elems(u.uniform_sample_in_box(lo, up, 2))
    log = r.log[0].reshape(2, 2)
    for i in range(2):
        h.eq((s[i] - l), log[i] * (p - l), "each entry has its own number")
    h.cover("reach")


for n, k in ((1, 1), (2, 2), (3, 1), (4, 3)):
    R.put(inbox(n, k), "in_box_%d_%d" % (n, k), "box, random numbers symbolic")
R.put(reach, "independent", "box, random numbers symbolic")


def onboundary(n, k):
    def f(h):
        u = loader.module("utils")
        lo, up, l, p = box(h, n)
        with Rand(h) as r:
            s = u.uniform_sample_on_box_boundary(lo, up, k)
        h.true(tuple(s.shape) == (k, n), "shape")
        S = h.elems(s)
        for i in range(k):
            h.ge(S[i], l, "above the lower bound")
            h.le(S[i], p, "below the upper bound")
            h.true(OR([OR(near(v, a), near(v, b)) for v, a, b in zip(
                S[i], l, p)]), "on a face")
        h.eq(h.elems(lo), l, "lo unchanged")
        h.cover("samples")
        for j in range(n):
            h.cover("upper face %d" % j, AND(
                S[0][j] == p[j], l[j] < p[j],
                [AND(S[0][i] > l[i], S[0][i] < p[i])
                 for i in range(n) if i != j]))
    return f


for n, k in ((1, 1), (2, 1), (2, 2), (3, 1), (4, 1)):
    R.put(onboundary(n, k), "boundary_%d_%d" % (n, k),
          "box, random numbers symbolic")


def mesh(sz, kind):
    n = len(sz)

    def f(h):
        u = loader.module("utils")
        lo, up, l, p = box(h, n)
        if kind == "list":
            lo, up = list(l), list(p)
        s = u.get_meshgrid_samples(lo, up, sz, F64)
        h.true(tuple(s.shape) == (int(np.prod(sz)), n) and s.dtype == F64,
               "shape")
        S = h.elems(s)
        for r, idx in enumerate(itertools.product(*[range(k) for k in sz])):
            w = [l[i] if sz[i] == 1 else l[i] + (p[i] - l[i]) * (
                float(idx[i]) / (sz[i] - 1)) for i in range(n)]
            h.eq(S[r], w, "row %d" % r)
        h.cover("mesh")
    return f


for sz in ((1, ), (4, ), (2, 3), (3, 1), (2, 3, 4), (2, 2, 2)):
    R.put(mesh(sz, "tensor"), "mesh_%s" % "x".join(map(str, sz)),
          "box symbolic")


# ---- projection: the solver is replaced by its contract
class E:
    """Expression over the variable: a function of its value."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def _b(self, o, g):
        a, b = self.f, (o.f if isinstance(o, E) else (lambda y, o=o: o))
        return E(lambda y: g(a(y), np.asarray(b(y), dtype=object)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __neg__(self):
        return E(lambda y: -self.f(y))

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __matmul__(self, o):
        return self._b(o, lambda a, b: a.dot(b))

    def __rmatmul__(self, o):
        return self._b(o, lambda a, b: b.dot(a))

    def __pow__(self, k):
        return E(lambda y: self.f(y)**k)

    def __getitem__(self, i):
        return E(lambda y: self.f(y)[i])

    def __le__(self, o):
        return C(self - o, "<")

    def __ge__(self, o):
        return C(-(self - o), "<")

    def __eq__(self, o):
        return C(self - o, "=")
    __hash__ = None

    @property
    def T(self):
        return self


class C:
    def __init__(self, e, s):
        self.e, self.s = e, s

    def cond(self, y):
        v = np.asarray(self.e.f(y), dtype=object).reshape(-1)
        return AND([w <= 0 if self.s == "<" else w == 0 for w in v])


class Var(E):
    def __init__(self, n, **k):
        self.n = n[0] if isinstance(n, tuple) else n
        E.__init__(self, lambda y: y)


def _sq(e):
    v = np.asarray(e, dtype=object).reshape(-1)
    return sum(w * w for w in v)


class CP:
    def __init__(self, h, n, z):
        self.h, self.n, self.z = h, n, z
        self.k = 0
        self.error = RuntimeError

    def Variable(self, n, **k):
        self.var = Var(n)
        return self.var

    @staticmethod
    def sum_squares(e):
        return E(lambda y: _sq(e.f(y)))

    @staticmethod
    def sum(e):
        return E(lambda y: sum(np.asarray(e.f(y), dtype=object).reshape(-1)))

    @staticmethod
    def square(e):
        return E(lambda y: e.f(y) * e.f(y))

    @staticmethod
    def norm(e, p=2):
        # monotone in the square
        return E(lambda y: _sq(e.f(y)))
    norm2 = norm

    @staticmethod
    def Minimize(e):
        return (1, e)

    @staticmethod
    def Maximize(e):
        return (-1, e)

    def Problem(self, obj, cons=()):
        outer = self

        class P:
            status = "optimal"

            def solve(self, *a, **k):
                cs = cons if isinstance(cons, (list, tuple)) else [cons]
                outer.k += 1
                h = outer.h
                y = h.reals("sol%d" % outer.k, outer.n, -9, 9)
                h.assume([c.cond(y) for c in cs])
                s, e = obj
                z = outer.z
                h.assume(IMPLIES(AND([c.cond(z) for c in cs]),
                                 s * e.f(y) <= s * e.f(z)))
                outer.var.value = st_array(y)
                return e.f(y)
        return P()


def st_array(y):
    from symx.npshim import SymArray
    return y.view(SymArray)


class Real:
    """cvxpy with whatever solver is here, for the replay."""
    def __init__(self):
        import cvxpy
        self.cp = cvxpy

    def __getattr__(self, n):
        if n != "Problem":
            return getattr(self.cp, n)
        cp = self.cp

        def mk(*a):
            p = cp.Problem(*a)
            q = p.solve
            p.solve = lambda *a, **k: q(solver="CLARABEL")
            return p
        return mk


def projection(A):
    m, n = len(A), len(A[0])

    def f(h):
        u = loader.module("utils")
        At = torch.tensor(A, dtype=F64)
        b, x = h.tensor("b", m, -2, 2), h.tensor("x", n, -3, 3)
        z = h.reals("z", n, -4, 4)
        B, X = h.elems(b).copy(), h.elems(x).copy()

        def inside(p, tol=0):
            return AND([sum(a * q for a, q in zip(A[i], p)) <= B[i] + tol
                        for i in range(m)])
        h.assume(inside(z))    # the polyhedron is not empty
        old = u.cp
        try:
            u.cp = CP(h, n, z) if h.symbolic else Real()
            y = u.project_to_polyhedron(At, b, x)
        finally:
            u.cp = old
        h.true(tuple(y.shape) == (n, ) and y.dtype == F64, "shape and type")
        Y = h.elems(y)
        h.true(inside(Y, 1e-6 if h.symbolic else 1e-4),
               "result in the polyhedron")
        h.le(_sq(Y - X), _sq(z - X) + (0 if h.symbolic else 1e-3),
             "no point is nearer")
        h.eq(h.elems(x), X, "point unchanged")
        h.cover("projection")
    return f


for k, A in enumerate(([[1.]], [[1.], [-1.]], [[1., 2.], [-1., 1.]],
                       [[1., 0.], [0., 1.], [-1., -1.]],
                       [[1., 2., 0.], [-1., 0., 1.], [0., 1., -1.],
                        [.5, .5, .5]])):
    R.put(projection(A), "projection_%d" % k,
          "rows %s; offsets, point, any other point symbolic" % A)
