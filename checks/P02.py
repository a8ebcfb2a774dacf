"""Bounds contain every reachable value."""
import itertools
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.history import pattern_past
from symx.lib import (AND, OR, IMPLIES, near, mknet, preacts, netfun, pnp, where,
                      vmax, vmin, tt, rnd, leq, eqz, F64)

HARNESSES = R = Registry()
BOUNDS = ("Affine maps up to 2x3 with symbolic coefficients, boxes symbolic in "
          "[-3,3]; networks of up to two hidden layers and five hidden units, "
          "boxes (and some weights) symbolic for interval arithmetic, fixed "
          "boxes for the optimisation-based methods; every input symbolic; "
          "networks of up to four hidden layers and 13 units with fixed boxes.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver is exact (linear data solved exactly by the SMT "
               "optimiser)"]


def box(h, n, names=("lo", "up"), b=3):
    lo = h.tensor(names[0], n, -b, b)
    up = h.tensor(names[1], n, -b, b)
    h.assume([p <= q for p, q in zip(h.elems(lo), h.elems(up))])
    return lo, up


def inside(h, lo, up, name="x"):
    L, U = h.elems(lo), h.elems(up)
    x = h.reals(name, len(L), -3, 3)
    h.assume([AND(a <= v, v <= b) for a, v, b in zip(L, x, U)])
    return x


def contains(h, lo, up, v, msg, tol=1e-6):
    lo, up = pnp(lo).reshape(-1), pnp(up).reshape(-1)
    v = np.asarray(v, dtype=object).reshape(-1)
    h.true(len(lo) == len(v) and len(up) == len(v), msg + ": size")
    h.le(lo, v, msg + ": lower", tol)
    h.le(v, up, msg + ": upper", tol)


def range_ia(m, n, const=False):
    def f(h):
        u = loader.module("mip_utils")
        lo, up = box(h, n)
        A = tt(rnd(m * 10 + n, (m, n), -2, 2)) if const else \
            h.tensor("A", (m, n), -2, 2)
        b = h.tensor("b", m, -2, 2)
        L, U = u.compute_range_by_IA(A, b, lo, up)
        x = inside(h, lo, up)
        y = pnp(A).dot(x) + h.elems(b)
        contains(h, L, U, y, "range")
        E = list(zip(h.elems(lo), h.elems(up)))
        for i in range(m):
            vert = [pnp(A)[i].dot(np.array(v, dtype=object)) + h.elems(b)[i]
                    for v in itertools.product(*E)]
            h.true(OR([near(w, h.elems(L)[i]) for w in vert]),
                   "lower attained")
            h.true(OR([near(w, h.elems(U)[i]) for w in vert]),
                   "upper attained")
        h.cover("range")
    return f


for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
    R.put(range_ia(m, n), "range_ia_%dx%d" % (m, n),
          "matrix, offset, box, input symbolic")
R.put(range_ia(1, 3), "range_ia_1x3", "matrix, offset, box, input symbolic",
      tier="thorough")
R.put(range_ia(3, 4, True), "range_ia_3x4", "offset, box, input symbolic")


def layer(kind, slope=None, n=2):
    def f(h):
        u = loader.module("mip_utils")
        lo, up = box(h, n)
        x = inside(h, lo, up)
        L0, U0 = h.elems(lo).copy(), h.elems(up).copy()
        if kind == "relu":
            l = torch.nn.ReLU()
        elif kind == "leaky":
            l = torch.nn.LeakyReLU(slope)
        else:
            l = torch.nn.Linear(n, 3, bias=kind == "linear", dtype=F64)
            l.weight = torch.nn.Parameter(tt(rnd(5, (3, n))))
            if kind == "linear":
                l.bias = torch.nn.Parameter(h.tensor("b", 3))
        L, U = u.propagate_bounds(l, lo, up)
        y = netfun([l], x)
        contains(h, L, U, y, "layer")
        E = [netfun([l], np.array(v, dtype=object)) for v in
             itertools.product(*zip(L0, U0))] if not (
            kind == "leaky" and slope < 0) else None
        if E:
            for i in range(len(y)):
                h.true(OR([near(e[i], h.elems(L)[i]) for e in E]),
                       "lower attained")
                h.true(OR([near(e[i], h.elems(U)[i]) for e in E]),
                       "upper attained")
        h.eq(h.elems(lo), L0, "input lower bound unchanged")
        h.eq(h.elems(up), U0, "input upper bound unchanged")
        h.cover("layer")
    return f


R.put(layer("relu"), "layer_relu", "box, input symbolic")
for s in (0., .1, 1., 1.5, -.5):
    R.put(layer("leaky", s), "layer_leaky_%g" % s, "box, input symbolic")
R.put(layer("linear"), "layer_linear", "box, bias, input symbolic")
R.put(layer("nobias"), "layer_linear_nobias", "box, input symbolic")


def leaky_scalar(h):
    u = loader.module("utils")
    lo, up = h.real("lo", -3, 3), h.real("up", -3, 3)
    c = h.real("slope", -2, 2)
    x = h.real("x", -3, 3)
    h.assume(AND(lo < up, lo <= x, x <= up))
    t = h.choice("tensor", 2)
    if t:
        L, U = u.leaky_relu_interval(c, h.as_tensor(np.array([lo]))[0],
                                     h.as_tensor(np.array([up]))[0])
        L = h.scalar(L) if isinstance(L, torch.Tensor) else L
        U = h.scalar(U) if isinstance(U, torch.Tensor) else U
    else:
        L, U = u.leaky_relu_interval(c, lo, up)
    y = where(x >= 0, x, c * x)
    h.le(L, y, "lower")
    h.le(y, U, "upper")
    ends = [where(e >= 0, e, c * e) for e in (lo, up)]
    zero = AND(lo <= 0, up >= 0)
    for e, m in ((L, "lower"), (U, "upper")):
        h.true(OR([near(e, v) for v in ends] + [AND(zero, near(e, 0))]),
               m + " attained")
    h.cover("leaky")


R.put(leaky_scalar, "leaky_relu_interval",
      "slope, end points, input symbolic; numbers and tensors")

# ---- polytopes
POLY = [
    ("triangle", [[1, 1], [-1, 0], [0, -1]], [1, .5, .25]),
    ("slanted", [[1, 2], [-1, 2], [0, -1], [2, -1]], [2, 1, 1, 1.5]),
    ("halfspace", [[1, 1]], [1]),
    ("strip", [[1, 0], [-1, 0]], [2, 1]),
    ("point", [[1, 0], [-1, 0], [0, 1], [0, -1]], [.5, -.5, .25, -.25]),
    ("empty", [[1, 0], [-1, 0]], [-1, -1]),
    ("solid", [[1, 1, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]],
     [1, 1, .5, .25]),
]


def polytope(P, q, as_t, mk):
    P, q = np.array(P, float), np.array(q, float)

    def f(h):
        u = loader.module("utils")
        x = h.reals("x", P.shape[1], -20, 20)
        inP = [leq(h, e - g, 1e-9) for e, g in zip(P.dot(x), q)]
        W = u.compute_bounds_from_polytope
        a = (tt(P) if as_t[0] else P, tt(q) if as_t[1] else q)
        for i in range(P.shape[1]):
            L, U = W(a[0], a[1], i)
            c = AND(inP)
            if not unb(L, -1):
                h.true(IMPLIES(c, x[i] >= L - 1e-6), "lower")
            if not unb(U, 1):
                h.true(IMPLIES(c, x[i] <= U + 1e-6), "upper")
            attained(h, P, q, np.eye(P.shape[1])[i], 0., L, U, mk)
        h.cover("polytope")
    return f


def unb(v, s):
    v = float(v)
    return v == s * np.inf


def attained(h, P, q, c, d, L, U, mk):
    """The bounds are values of points of the polytope (or infinite when
    unbounded, crossed infinities when empty)."""
    from scipy.optimize import linprog
    import z3
    L, U = float(L), float(U)
    if mk == "empty":
        h.true(L == np.inf and U == -np.inf, "empty set")
        return
    for v, s in ((L, -1), (U, 1)):
        if np.isfinite(v):
            w = z3sat(P, q, c, d, v)
        else:
            h.true(v == s * np.inf, "direction of the infinity")
            w = z3sat(P, q, c, d, s * 10.**6)
        h.true(w, "bound attained %s %s" % (v, s))


def z3sat(P, q, c, d, v):
    import z3
    from fractions import Fraction
    s = z3.Solver()
    n = P.shape[1]
    x = [z3.Real("a%d" % i) for i in range(n)]
    R_ = lambda f: z3.RealVal(str(Fraction(float(f)).limit_denominator(  # noqa
        10**9)))
    for r, g in zip(P, q):
        s.add(sum(R_(r[i]) * x[i] for i in range(n)) <= R_(g))
    t = sum(R_(c[i]) * x[i] for i in range(n)) + R_(d) - R_(v)
    s.add(t <= R_(1e-6), t >= R_(-1e-6))
    return s.check() == z3.sat


for nm, P, q in POLY:
    for as_t in ((0, 0), (1, 1)) if nm in ("triangle", "strip") else ((
            1, 0), ):
        R.put(polytope(P, q, as_t, nm), "polytope_%s_%d%d" % ((nm, ) + as_t),
              "point symbolic")


def range_lp(P, q, lo, up, nm):
    A = rnd(3, (3, len(lo if lo is not None else P[0])), -2, 2)
    A[2] = 0
    A[2, -1] = 1.5
    b = rnd(4, 3)

    def f(h):
        u = loader.module("mip_utils")
        n = A.shape[1]
        x = h.reals("x", n, -20, 20)
        c = []
        rows, rhs = [], []
        if P is not None:
            rows += list(np.array(P, float))
            rhs += list(q)
        for s, e in ((-1, lo), (1, up)):
            if e is not None:
                rows += list(s * np.eye(n))
                rhs += list(s * np.array(e))
        rows, rhs = np.array(rows), np.array(rhs, float)
        c = AND([leq(h, e - g, 1e-9) for e, g in zip(rows.dot(x), rhs)])
        g = lambda v: None if v is None else np.array(v, float)  # noqa
        L, U = u.compute_range_by_lp(A.copy(), b.copy(), g(lo), g(up), g(P),
                                     g(q))
        h.true(len(L) == 3 and len(U) == 3, "size")
        for i in range(3):
            y = A[i].dot(x) + b[i]
            if not unb(L[i], -1):
                h.true(IMPLIES(c, y >= L[i] - 1e-6), "lower")
            if not unb(U[i], 1):
                h.true(IMPLIES(c, y <= U[i] + 1e-6), "upper")
            attained(h, rows, rhs, A[i], b[i], L[i], U[i], nm)
        h.cover("range")
    return f


R.put(range_lp(POLY[0][1], POLY[0][2], [-.25, -.1], [.75, .8], "box"),
      "range_lp_box", "point symbolic")
R.put(range_lp(POLY[1][1], POLY[1][2], None, None, "free"), "range_lp_free",
      "point symbolic")
R.put(range_lp(POLY[3][1], POLY[3][2], None, None, "strip"), "range_lp_strip",
      "unbounded polytope; point symbolic")
R.put(range_lp(None, None, [-1, -2, .5], [1, -.5, 2], "noC"),
      "range_lp_no_polytope", "point symbolic")
R.put(range_lp(POLY[6][1], POLY[6][2], [-1, None or -.25, 0], [0, .25, .5],
               "solid"), "range_lp_solid", "point symbolic")
R.put(range_lp(POLY[5][1], POLY[5][2], None, None, "empty"), "range_lp_empty",
      "empty polytope; point symbolic")
R.put(range_lp(POLY[0][1], POLY[0][2], None, [.75, .8], "upper"),
      "range_lp_upper_only", "point symbolic")


# ---- networks
def posts(net, x):
    pre = preacts(net, x)
    acts = [l for l in net if not isinstance(l, torch.nn.Linear)]
    return pre, [netfun([a], p) for a, p in zip(acts, pre)]


def net_ia(widths, seed, slope, bias=True, sym=(), deg=False):
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        net = mknet(widths, seed, slope, bias)
        lin = [l for l in net if isinstance(l, torch.nn.Linear)]
        for k in sym:
            if k == "w":
                lin[0].weight = torch.nn.Parameter(h.tensor(
                    "w", (widths[1], widths[0]), -1, 1))
            else:
                lin[k].bias = torch.nn.Parameter(h.tensor(
                    "b%d" % k, widths[k + 1], -1, 1))
        lo, up = box(h, widths[0], b=2)
        if deg:
            h.assume(h.elems(lo)[0] == h.elems(up)[0])
        x = inside(h, lo, up)
        L0, U0 = h.elems(lo).copy(), h.elems(up).copy()
        p = m.ReLUFreePattern(net, F64)
        M = mu.PropagateBoundsMethod.IA
        a, b, c, d = p._compute_layer_bound(lo, up, M)
        e, g = p._compute_network_output_bounds(a, b, lo, up, M)
        pre, post = posts(net, x)
        cat = lambda v: [q for r in v for q in r]  # noqa
        contains(h, a, b, cat(pre), "neuron input")
        contains(h, c, d, cat(post), "neuron output")
        contains(h, e, g, netfun(net, x), "network output")
        r = p.output_constraint(lo, up, M)
        contains(h, r.relu_input_lo, r.relu_input_up, cat(pre),
                 "reported neuron input")
        contains(h, r.relu_output_lo, r.relu_output_up, cat(post),
                 "reported neuron output")
        contains(h, r.nn_output_lo, r.nn_output_up, netfun(net, x),
                 "reported network output")
        contains(h, r.nn_input_lo, r.nn_input_up, x, "reported input")
        # the first layer is affine: bounds attained
        E = [preacts(net, np.array(v, dtype=object))[0]
             for v in itertools.product(*zip(L0, U0))]
        for i in range(widths[1]):
            h.true(OR([near(v[i], h.elems(a)[i]) for v in E]),
                   "first layer lower attained")
            h.true(OR([near(v[i], h.elems(b)[i]) for v in E]),
                   "first layer upper attained")
        h.cover("network")
    return f


for w, s, c, kw in (((1, 1, 1), 1, .1, {}), ((2, 2, 1), 2, 0, {}),
                    ((1, 2, 2), 3, .25, dict(bias=False)),
                    ((1, 2, 1, 1), 4, .1, {}), ((2, 2, 1), 5, -.25, {}),
                    ((1, 2, 1), 6, 1.5, {}), ((2, 2, 2), 6, 0,
                                              dict(sym=(0, 1))),
                    ((1, 2, 1), 7, .1, dict(sym=("w", 0))),
                    ((2, 1, 1), 8, .1, dict(deg=True))):
    R.put(net_ia(w, s, c, **kw), "net_ia_%s_%g%s" % (
        "x".join(map(str, w)), c, "_" + "".join(
            "%s%s" % (k, "".join(map(str, v)) if isinstance(v, tuple) else "")
            for k, v in kw.items()) if kw else ""),
        "box, input%s symbolic" % (", some parameters" if kw.get("sym")
                                   else ""))
R.put(net_ia((2, 2, 2, 1), 9, .1), "net_ia_2x2x2x1", "box, input symbolic",
      tier="thorough")
R.put(net_ia((2, 3, 1), 10, 0), "net_ia_2x3x1", "box, input symbolic",
      tier="thorough")


def cb_of(m, net, kind, lo, up):
    """Extra rows on the network input."""
    g = loader.module("gurobi_torch_mip")
    n = net[0].in_features

    def cb():
        prog = g.GurobiTorchMILP(F64)
        x = prog.addVars(n, lb=-10.)
        prog.addMConstr([torch.ones((1, n), dtype=F64)], [x],
                        b=torch.tensor([.25], dtype=F64), sense="<")
        return prog, x
    return cb


def net_opt(widths, seed, slope, method, lo, up, bias=True, cb=False,
            scale=1.):
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        net = mknet(widths, seed, slope, bias, scale=scale)
        l, u = tt(lo), tt(up)
        x = inside(h, l, u)
        if cb:
            h.assume(sum(x) <= .25)
        p = m.ReLUFreePattern(net, F64)
        M = getattr(mu.PropagateBoundsMethod, method)
        kw = dict(create_prog_callback=cb_of(m, net, cb, lo, up)) if cb else {}
        a, b, c, d = p._compute_layer_bound(l, u, M, **kw)
        e, g = p._compute_network_output_bounds(a, b, l, u, M, **kw)
        pre, post = posts(net, x)
        cat = lambda v: [q for r in v for q in r]  # noqa
        contains(h, a, b, cat(pre), "neuron input")
        contains(h, c, d, cat(post), "neuron output")
        contains(h, e, g, netfun(net, x), "network output")
        if not cb:
            r = p.output_constraint(l, u, M)
            contains(h, r.relu_input_lo, r.relu_input_up, cat(pre),
                     "reported neuron input")
            contains(h, r.nn_output_lo, r.nn_output_up, netfun(net, x),
                     "reported network output")
        h.eq(h.elems(l), np.array(lo), "box unchanged")
        h.cover("network")
    return f


N = 0
for mth in ("LP", "MIP", "IA_MIP"):
    for w, s, c, lo, up, kw in (
            ((1, 2, 1), 1, .1, [-1.], [.5], {}),
            ((2, 2, 2), 2, 0, [-1., -.5], [1., .75], {}),
            ((2, 2, 2, 1), 3, .1, [-1., -.5], [1., .75], {}),
            ((2, 2, 1), 4, .25, [.5, -1], [.5, 2], dict(bias=False)),
            ((2, 2, 2, 1), 5, 0, [-1., -2], [2., 1], dict(cb=True)),
            ((1, 2, 2, 1), 12, .1, [-2.], [1.], dict(scale=4.))):
        N += 1
        R.put(net_opt(w, s, c, mth, lo, up, **kw), "net_%s_%s_%d" % (
            mth, "x".join(map(str, w)), N), "input symbolic",
            tier="quick" if N % 2 or mth == "IA_MIP" else "thorough")


def one_neuron(cb):
    """Bounds of single linear outputs with their arguments."""
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        g = loader.module("gurobi_torch_mip")
        net = mknet((2, 2, 2, 2), 21, .1)
        lo, up = np.array([-1., -.5]), np.array([.5, 1.])
        x = inside(h, tt(lo), tt(up))
        if cb:
            h.assume(sum(x) <= .25)
        p = m.ReLUFreePattern(net, F64)
        a, b, _, _ = p._compute_layer_bound(
            tt(lo), tt(up), mu.PropagateBoundsMethod.IA)
        pre = preacts(net, x) + [netfun(net, x)]
        for li in range(3):
            for j in range(2):
                for relax in (g.BINARYRELAX, "B"):
                    L, U, xl, xu = \
                        p._compute_linear_output_bound_by_optimization(
                            li, j, a.detach().numpy(), b.detach().numpy(),
                            lo.copy(), up.copy(),
                            cb_of(m, net, cb, lo, up) if cb else None, relax)
                    h.le(L, pre[li][j], "lower")
                    h.le(pre[li][j], U, "upper")
                    if relax == "B" or li == 0:
                        for v, e in ((xl, L), (xu, U)):
                            V = pnp(v)
                            P = (preacts(net, V) + [netfun(net, V)])[li][j]
                            h.true(near(P, e), "attained at the argument")
                            h.le(lo, V, "argument in box")
                            h.le(V, up, "argument in box")
                            if cb:
                                h.le(sum(V), .25, "argument meets rows")
        h.cover("neuron")
    return f


R.put(one_neuron(False), "one_neuron", "input symbolic")
R.put(one_neuron(True), "one_neuron_callback", "input symbolic")


# second-layer units which are always on or always off although the interval
# bounds are looser (on or off as well, or undecided)
for s in (6, 38, 252):
    for mth in ("MIP", "IA_MIP"):
        R.put(net_opt((2, 2, 2, 1), s, .1, mth, [-1., -1.], [1., 1.]),
              "net_%s_decided_%d" % (mth, s), "input symbolic")


def no_optimum(what):
    """Programs without an optimum still give bounds that contain all."""
    def f(h):
        m = loader.module("relu_to_optimization")
        g = loader.module("gurobi_torch_mip")
        INF = np.inf
        net = mknet((2, 2, 1), 22, .1)
        lo, up = np.array([-INF, -.5]), np.array([.5, 1.])
        if what == "above":
            lo, up = np.array([-1., -.5]), np.array([INF, 1.])
        cb = None
        if what == "empty":
            lo = np.array([-1., -.5])

            def cb():
                prog = g.GurobiTorchMILP(F64)
                x = prog.addVars(2, lb=-10.)
                prog.addMConstr([torch.ones((1, 2), dtype=F64)], [x],
                                b=torch.tensor([-3.], dtype=F64), sense="<")
                return prog, x
        x = h.reals("x", 2, -50, 50)
        h.assume([AND(a <= v, v <= b) for a, v, b in zip(
            np.maximum(lo, -50), x, np.minimum(up, 50))])
        p = m.ReLUFreePattern(net, F64)
        e = np.zeros(2)
        pre = preacts(net, x)[0]
        for j in range(2):
            L, U, xl, xu = p._compute_linear_output_bound_by_optimization(
                0, j, e, e, lo.copy(), up.copy(), cb, "B")
            if what == "empty":
                h.true(L == INF and U == -INF, "nothing is reached")
                h.true(xl is None and xu is None, "no argument")
                continue
            for v, a, sgn in ((L, xl, -1), (U, xu, 1)):
                w = pnp(net[0].weight)[j][0] * sgn
                open_ = w > 0 if what == "above" else w < 0
                h.true((a is None) == open_, "argument")
                if open_:
                    h.true(v == sgn * INF, "no finite bound")
                else:
                    h.true(pre[j] * sgn <= v * sgn + 1e-6, "contained")
        h.cover(what)
    return f


for w in ("below", "above", "empty"):
    R.put(no_optimum(w), "no_optimum_" + w, "input symbolic")


def bounds(method):
    def ask(h, p, lo, up):
        mu = loader.module("mip_utils")
        M = getattr(mu.PropagateBoundsMethod, method)
        r = p._compute_layer_bound(lo, up, M)
        return r, p._compute_network_output_bounds(r[0], r[1], lo, up, M)
    return ask


for k, w, s, c, mth, how in ((0, (1, 2, 1), 3, .1, "IA", "data"),
                             (1, (2, 2, 2), 4, 0, "IA", "copy"),
                             (2, (2, 2, 1), 5, .1, "LP", "data"),
                             (3, (2, 2, 2, 1), 6, .1, "MIP", "copy"),
                             (4, (2, 2, 2, 1), 7, 0, "IA_MIP", "data")):
    R.put(pattern_past(w, s, c, bounds(mth), k == 0, how),
          "history_%d_%s" % (k, mth), "box symbolic for IA 0")


def net_deep(widths, seed, slope, method, lo, up, bias=True):
    """Larger networks with a fixed box."""
    def f(h):
        m = loader.module("relu_to_optimization")
        mu = loader.module("mip_utils")
        net = mknet(widths, seed, slope, bias, scale=.5)
        l, u = tt(lo), tt(up)
        x = inside(h, l, u)
        p = m.ReLUFreePattern(net, F64)
        M = getattr(mu.PropagateBoundsMethod, method)
        a, b, c, d = p._compute_layer_bound(l, u, M)
        e, g = p._compute_network_output_bounds(a, b, l, u, M)
        pre, post = posts(net, x)
        cat = lambda v: [q for r in v for q in r]  # noqa
        for w, v, lb, ub in (("neuron input", cat(pre), a, b),
                             ("neuron output", cat(post), c, d),
                             ("network output", netfun(net, x), e, g)):
            L, U = pnp(lb).reshape(-1), pnp(ub).reshape(-1)
            h.true(len(L) == len(v) and len(U) == len(v), w + ": size")
            for q, r, t in zip(v, L, U):
                h.true(AND(q >= r - 1e-6, q <= t + 1e-6), w)
        h.cover("network")
    return f


for w, s, c, lo, up, mth in (
        ((3, 4, 3, 2), 41, .1, [-.5, -1., 0.], [1., .5, .75], "IA"),
        ((2, 2, 2, 2, 2, 1), 42, 0, [-1., -.5], [1., .75], "LP"),
        ((4, 3, 3), 43, .25, [-1.] * 4, [1.] * 4, "MIP"),
        ((3, 6, 4, 3, 2), 44, .1, [-1.] * 3, [1.] * 3, "IA"),
        ((2, 3, 3, 1), 45, 0, [-1., .25], [1., 1.], "IA_MIP"),
        ((2, 3, 2, 3), 46, .1, [-1., -1.], [1., 1.], "MIP")):
    R.put(net_deep(w, s, c, mth, lo, up), "deep_%s_%s" % (
        mth, "x".join(map(str, w))), "fixed box, input symbolic")
