"""Elementary mixed-integer gadgets."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import (AND, OR, IMPLIES, IFF, where, vmax, absv, near, mic_conds,
                      mic_out, patterns, rows_conds, F64)

HARNESSES = R = Registry()
BOUNDS = ("Interval end points, limits, slopes and variables symbolic in "
          "[-3,3] (slopes in [-1,2]); maximum over 1-3 inputs, boundary of "
          "boxes of dimension 1-3.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the program solver is replaced by the set of all feasible "
               "points of the recorded program"]


def ends(h, order=True, names=("lo", "up")):
    lo = h.tensor(names[0], 1, -3, 3)[0]
    up = h.tensor(names[1], 1, -3, 3)[0]
    if order:
        h.assume(h.scalar(lo) <= h.scalar(up))
    return lo, up


def scalarised(h, f, lo, up, x, s_of, msg, meaning=None, tied=None):
    """Gadget with rows on (x, s, binary): f(binary) -> conditions."""


def product(h):
    u = loader.module("utils")
    lo, up = ends(h)
    Ax, As, Aa, rhs = u.replace_binary_continuous_product(lo, up)
    x, s = h.real("x", -3, 3), h.real("s", -9, 9)
    l, p = h.scalar(lo), h.scalar(up)
    h.assume(AND(x >= l, x <= p))
    for a in (0, 1):
        c = AND(rows_conds(h, (Ax, As, Aa), (x, a * x, a), rhs))
        h.true(c, "graph point feasible at %d" % a)
        c = AND(rows_conds(h, (Ax, As, Aa), (x, s, a), rhs))
        h.true(IMPLIES(c, near(s, a * x)), "feasible point on graph at %d" % a)
    # relaxed binary: x outside the interval is cut off by neither value
    h.cover("product")


def product_float(h):
    """Ends given as numbers."""
    u = loader.module("utils")
    Ax, As, Aa, rhs = u.replace_binary_continuous_product(-1.5, 2.)
    x, s = h.real("x", -1.5, 2), h.real("s", -9, 9)
    for a in (0, 1):
        h.true(AND(rows_conds(h, (Ax, As, Aa), (x, a * x, a), rhs)),
               "graph point feasible")
        h.true(IMPLIES(AND(rows_conds(h, (Ax, As, Aa), (x, s, a), rhs)),
                       near(s, a * x)), "feasible point on graph")
    h.cover("product")


R.put(product, "product", "end points, x, s symbolic")
R.put(product_float, "product_float", "end points -1.5, 2; x, s symbolic")


def unit(fn, kind):
    def f(h):
        u = loader.module("utils")
        lo, up = ends(h)
        l, p = h.scalar(lo), h.scalar(up)
        x, y = h.real("x", -3, 3), h.real("y", -9, 9)
        h.assume(AND(x >= l, x <= p))
        if kind == "relu":
            h.assume(AND(l < 0, p > 0))
            c = 0
            r = u.replace_relu_with_mixed_integer_constraint(lo, up)
        else:
            c = h.real("slope", -1, 2)
            if kind == "leaky":
                h.assume(AND(l < 0, p > 0))
                r = u.replace_leaky_relu_mixed_integer_constraint(c, lo, up)
            else:
                r = u.leaky_relu_gradient_times_x(lo, up, c)
        A, rhs = r[:3], r[3]
        for b in (0, 1):
            v = x if b else c * x
            here = AND(rows_conds(h, A, (x, v, b), rhs))
            if kind == "times":
                h.true(here, "graph point feasible at %d" % b)
            else:
                h.true(IMPLIES(x >= 0 if b else x <= 0, here),
                       "graph point feasible with binary %d" % b)
            ok = AND(rows_conds(h, A, (x, y, b), rhs))
            h.true(IMPLIES(ok, near(y, v)), "value at binary %d" % b)
            if kind == "relu":
                h.true(IMPLIES(ok, x >= -1e-7 if b else x <= 1e-7),
                       "binary %d tells the side" % b)
            elif kind == "leaky":
                h.true(IMPLIES(AND(ok, OR(c <= .999, c >= 1.001)),
                               x >= -1e-3 if b else x <= 1e-3),
                       "binary %d tells the side" % b)
        h.cover("unit")
    return f


for k in ("relu", "leaky", "times"):
    R.put(unit(None, k), "unit_" + k, "end points, slope, x, y symbolic")


def leaky_float(kind, slope):
    def f(h):
        u = loader.module("utils")
        x, y = h.real("x", -2, 1.5), h.real("y", -9, 9)
        if kind == "leaky":
            r = u.replace_leaky_relu_mixed_integer_constraint(slope, -2., 1.5)
        elif kind == "relu":
            r = u.replace_relu_with_mixed_integer_constraint(-2., 1.5)
        else:
            r = u.leaky_relu_gradient_times_x(-2., 1.5, slope)
        for b in (0, 1):
            v = x if b else slope * x
            here = AND(rows_conds(h, r[:3], (x, v, b), r[3]))
            side = True if kind == "times" else (x >= 0 if b else x <= 0)
            h.true(IMPLIES(side, here), "graph point feasible")
            h.true(IMPLIES(AND(rows_conds(h, r[:3], (x, y, b), r[3])),
                           near(y, v)), "value")
        h.cover("unit")
    return f


R.put(leaky_float("relu", 0), "relu_numbers", "end points -2, 1.5")
for s in (0., .125, 1., 1.5):
    R.put(leaky_float("leaky", s), "leaky_numbers_%g" % s,
          "end points -2, 1.5, slope %g" % s)
    R.put(leaky_float("times", s), "times_numbers_%g" % s,
          "end points -2, 1.5, slope %g" % s)


def absolute(three, num=False):
    def f(h):
        u = loader.module("utils")
        if num:
            lo, up = num
            l, p = num
        else:
            lo, up = ends(h)
            l, p = h.scalar(lo), h.scalar(up)
        ret = u.absolute_value_as_mixed_integer_constraint(lo, up, three)
        x, s = h.real("x", -3, 3), h.real("s", -9, 9)
        n = 3 if three else 1
        h.true(ret.num_binary() == n and ret.num_out() == 1 and
               ret.num_slack() == 1, "sizes")
        inside = AND(x >= l, x <= p)
        graph = []
        for b in patterns(n):
            ok = AND(mic_conds(h, ret, [x], [absv(x)], b))
            graph.append(ok)
            any_s = AND(mic_conds(h, ret, [x], [s], b))
            o = mic_out(h, ret, [x], [s], b)[0]
            pre = AND(any_s, inside)
            h.true(IMPLIES(pre, near(o, absv(x))), "value at %s" % (b, ))
            if not three:
                side = x >= -1e-6 if b[0] else x <= 1e-6
                allow = x >= 0 if b[0] else x <= 0
            elif sum(b) != 1:
                side = allow = False
            elif b[0]:
                side, allow = x <= 1e-6, x <= 0
            elif b[2]:
                side, allow = x >= -1e-6, x >= 0
            else:
                side, allow = near(x, 0), x == 0
            h.true(IMPLIES(pre, side), "binary %s tells the sign" % (b, ))
            # in the interior of the interval every admissible choice is
            # there (zero has every one-sided slope)
            h.true(IMPLIES(AND(allow, inside, l < 0, p > 0), ok),
                   "every admissible binary choice at %s" % (b, ))
        h.true(IMPLIES(inside, OR(graph)), "graph point feasible")
        h.cover("abs")
    return f


for t in (False, True):
    R.put(absolute(t), "abs_%s" % ("three" if t else "one"),
          "end points, x, s symbolic")
    for e in ((-1., 2.), (0., 2.), (-2., 0.), (.5, 2.), (-2., -.5), (0., 0.)):
        R.put(absolute(t, e), "abs_%s_%g_%g" % (("three" if t else "one", ) + e),
              "x, s symbolic")


def maximum(n, fixed=None):
    def f(h):
        u = loader.module("utils")
        if fixed:
            lo, up = [torch.tensor(v, dtype=F64) for v in fixed]
        else:
            lo, up = h.tensor("lo", n, -3, 3), h.tensor("up", n, -3, 3)
            h.assume([a <= b for a, b in zip(h.elems(lo), h.elems(up))])
        ret = u.max_as_mixed_integer_constraint(lo, up)
        x, y = h.reals("x", n, -3, 3), h.real("y", -9, 9)
        h.assume([AND(v >= a, v <= b) for v, a, b in zip(
            x, h.elems(lo), h.elems(up))])
        m = vmax(*x) if n > 1 else x[0]
        graph = []
        for b in patterns(n):
            graph.append(AND(mic_conds(h, ret, x, [m], b)))
            ok = AND(mic_conds(h, ret, x, [y], b))
            o = mic_out(h, ret, x, [y], b)[0]
            h.true(IMPLIES(ok, AND(near(o, m), sum(b) == 1)),
                   "value at %s" % (b, ))
            if sum(b) == 1:
                h.true(IMPLIES(ok, near(x[b.index(1)], m)),
                       "binary %s names the maximum" % (b, ))
        h.true(OR(graph), "graph point feasible")
        h.cover("max")
    return f


R.put(maximum(1), "max_1", "bounds, x, y symbolic")
R.put(maximum(2), "max_2", "bounds, x, y symbolic")
R.put(maximum(3), "max_3", "bounds, x, y symbolic")
for k, e in enumerate((([-1., -1, -1], [1., 1, 1]), ([-1., 0, -3], [1., 1, -2]),
                       ([-1., 2, -3], [1., 3, -2]), ([0., 0, 0], [0., 1, 0]),
                       ([-1., 0, .5], [2., 1, .75]))):
    R.put(maximum(3, e), "max_3_%d" % k, "bounds %s, x, y symbolic" % (e, ))


def saturation(kind, tensor=True):
    def f(h):
        u = loader.module("utils")
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        vt = {"binary": GRB.BINARY, "relaxed": g.BINARYRELAX,
              "continuous": GRB.CONTINUOUS}[kind]
        if tensor:
            L, U = ends(h, names=("limlo", "limup"))
            lo, up = ends(h)
        else:
            L, U, lo, up = tensor_cases[h.choice("case", len(tensor_cases))]
        ev = [h.scalar(v) if isinstance(v, torch.Tensor) else v
              for v in (L, U, lo, up)]
        mip = g.GurobiTorchMILP(F64)
        INF = GRB.INFINITY
        xv = mip.addVars(1, lb=-INF)[0]
        yv = mip.addVars(1, lb=-INF)[0]
        n0 = len(mip.gurobi_model._vars)
        bins = u.add_saturation_as_mixed_integer_constraint(
            mip, xv, yv, L, U, lo, up, vt)
        m = mip.gurobi_model
        m.update()
        h.true(len(bins) <= 2 and all(b in mip.zeta_indices for b in bins)
               if kind != "continuous" else True, "binaries registered")
        h.true(all(b.vtype == ("B" if kind == "binary" else "C")
                   for b in bins), "type of the binaries")
        x = h.real("x", -3, 3)
        h.assume(AND(x >= ev[2], x <= ev[3]))
        y = where(x >= ev[1], ev[1], where(x <= ev[0], ev[0], x))
        for b in bins:
            b.vtype = "B"
        h.exists(m, {xv: x, yv: y}, "graph point feasible")
        val = h.assign(m, {xv: x})
        h.eq(val[yv], y, "feasible point on graph")
        if len(bins) == 2:
            h.true(IMPLIES(val[bins[0]] == 1, x <= ev[0] + 1e-6), "lower flag")
            h.true(IMPLIES(val[bins[1]] == 1, x >= ev[1] - 1e-6), "upper flag")
            h.true(IMPLIES(val[bins[0]] + val[bins[1]] == 0, AND(
                x >= ev[0] - 1e-6, x <= ev[1] + 1e-6)), "no flag")
        elif len(bins) == 1:
            low = bool(ev[2] < ev[0])
            lim = ev[0] if low else ev[1]
            s = 1 if low else -1
            h.true(IFF(val[bins[0]] == 1, s * x <= s * lim) if not h.symbolic
                   else OR(IFF(val[bins[0]] == 1, s * x <= s * lim),
                           near(x, lim)), "flag")
        h.cover("saturation")
    return f


tensor_cases = [(-1., 1., -3., 3.), (-1., 1., -3., .5), (-1., 1., -.5, 3.),
                (-1., 1., -.5, .5), (-1., 1., -3., -2.), (-1., 1., 2., 3.),
                (-1., 1., -3., -1.), (-1., 1., 1., 2.), (-1., 1., -1., 1.),
                (0., 0., -1., 1.)]
for k in ("binary", "relaxed", "continuous"):
    R.put(saturation(k), "saturation_" + k,
          "limits, input bounds, x symbolic")
R.put(saturation("binary", False), "saturation_numbers",
      "limits and bounds as numbers, each case of the code")


def boundary(n):
    def f(h):
        u = loader.module("utils")
        lo, up = h.tensor("lo", n, -3, 3), h.tensor("up", n, -3, 3)
        l, p = h.elems(lo), h.elems(up)
        h.assume([a <= b for a, b in zip(l, p)])
        ret = u.box_boundary(lo, up)
        h.true(ret.num_binary() == 2 * n and ret.num_out() == 0, "sizes")
        x = h.reals("x", n, -4, 4)
        h.eq(h.elems(lo), l, "bounds unchanged")
        box = AND([AND(v >= a, v <= b) for v, a, b in zip(x, l, p)])
        face = OR([OR(v == a, v == b) for v, a, b in zip(x, l, p)])
        ok = []
        for b in patterns(2 * n):
            c = AND(mic_conds(h, ret, x, (), b))
            ok.append(c)
            h.true(IMPLIES(c, sum(b) == 1), "one face is chosen")
            if sum(b) == 1:
                k = b.index(1)
                h.true(IMPLIES(c, near(x[k], p[k]) if k < n else near(
                    x[k - n], l[k - n])), "the face chosen")
        h.true(IMPLIES(AND(box, face), OR(ok)), "boundary point feasible")
        big = AND([AND(v >= a - 1e-6, v <= b + 1e-6)
                   for v, a, b in zip(x, l, p)])
        edge = OR([OR(near(v, a), near(v, b)) for v, a, b in zip(x, l, p)])
        h.true(IMPLIES(OR(ok), AND(big, edge)), "feasible point on boundary")
        h.cover("boundary")
    return f


for n in (1, 2, 3):
    R.put(boundary(n), "boundary_%d" % n, "box and point symbolic")
