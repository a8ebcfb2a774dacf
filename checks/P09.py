"""Placing, transforming, copying and stacking constraint sets."""
import itertools
from fractions import Fraction
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.num import SR
from symx.lib import (AND, OR, IFF, near, tt, pnp, leq, eqz, mic_conds,
                      mic_out, F64)

HARNESSES = R = Registry()
BOUNDS = ("Constraint sets with two inputs, up to two slacks, two binaries, "
          "two outputs, two inequality and two equality rows; every "
          "combination of absent parts listed; all coefficients, bounds and "
          "points symbolic in [-2,2].")
ASSUMPTIONS = ["real arithmetic for float64",
               "the solver's program is the list of variables, bounds and "
               "rows recorded by the stand-in for its API"]
NX = 2


def build(h, spec, tag="", ns=2, nb=2, ni=2, ne=1, no=2, nx=NX):
    """spec: parts present, e.g. 'in:xsb eq:x out:sc lo:xsb up:x'."""
    g = loader.module("gurobi_torch_mip")
    c = g.MixedIntegerConstraintsReturn()
    n = {"x": nx, "s": ns, "b": nb}
    full = {"x": "input", "s": "slack", "b": "binary"}
    for part in spec.split():
        k, v = part.split(":")
        if k in ("lo", "up"):
            for q in v:
                setattr(c, "%s_%s" % (full[q], k),
                        h.tensor(tag + k + q, n[q]))
            continue
        rows = {"in": ni, "eq": ne, "out": no}[k]
        if k != "out":
            setattr(c, "rhs_" + k, h.tensor(tag + "rhs" + k, rows))
        for q in v:
            if q == "c":
                c.Cout = h.tensor(tag + "Cout", rows)
            else:
                setattr(c, "A%s_%s" % (k, full[q]),
                        h.tensor(tag + "A" + k + q, (rows, n[q])))
    return c


def sizes(h, c, nx, ns, nb, ni, ne, no, msg):
    h.true((c.num_input(), c.num_slack(), c.num_binary(), c.num_ineq(),
            c.num_eq(), c.num_out()) == (nx, ns, nb, ni, ne, no), msg)


def conds(h, c, x, s, b):
    return AND(mic_conds(h, c, x, s, b))


def same(h, a, b, msg):
    if h.symbolic:
        h.true(IFF(a, b), msg)
    else:
        h.true(a == b, msg)


# ---- placing in a program
PLACE = {
    "full": "in:xsb eq:xsb out:xsbc",
    "ineq": "in:xsb",
    "ineq_b": "in:b out:x",
    "ineq_s": "in:s out:sc",
    "eq": "eq:xsb out:bc",
    "eq_s": "eq:s out:b",
    "out": "out:xsb",
    "out_sc": "in:x out:sc",
    "out_b": "eq:x out:b",
    "const": "in:xs out:c",
    "bounds": "in:xsb out:xsbc lo:xsb up:xsb",
    "bounds_x": "in:xsb out:xsbc lo:x up:x",
    "bounds_sb": "in:xsb out:xsbc lo:sb up:sb",
    "lower": "in:xsb lo:xsb",
    "upper": "eq:xsb out:c up:xsb",
    "bounds_only": "in:x lo:sb",
    "bounds_only_up": "in:x up:sb",
}


def place(spec, vtype, with_out, given):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        GRB = g.gurobipy.GRB
        INF = GRB.INFINITY
        c = build(h, spec)
        has_out = "out:" in spec
        vt = {"B": GRB.BINARY, "R": g.BINARYRELAX, "C": GRB.CONTINUOUS}[vtype]
        mip = g.GurobiTorchMILP(F64)
        xlo, xup = h.tensor("xl", NX), h.tensor("xu", NX)
        h.assume([p <= q for p, q in zip(h.elems(xlo), h.elems(xup))])
        if "lo:x" in spec or "up:x" in spec:
            xv = mip.addVars(NX, lb=xlo, ub=xup, name="x")
        else:
            xv = mip.addVars(NX, lb=-INF, name="x")
        dummy = mip.addVars(1, lb=-INF, name="d")
        yv = mip.addVars(2, lb=-INF, name="y") if with_out else None
        pre = mip.addVars(2, vtype=GRB.BINARY if vtype == "B" else vt,
                          lb=0., ub=1., name="pre") if given else None
        n0 = len(mip.gurobi_model._vars)
        keep = {k: (pnp(v).copy() if v is not None else None)
                for k, v in c.__dict__.items()}
        slack, binary = mip.add_mixed_integer_linear_constraints(
            c, xv, yv, "s", pre if given else "b", "in", "eq", "out", vt)
        m = mip.gurobi_model
        ns, nb = c.num_slack(), c.num_binary()
        if "lo:sb" in spec or "up:sb" in spec:
            ns = nb = 2  # also when no row refers to them
        h.true(len(slack) == ns and len(binary) == nb, "number of new variables")
        h.true(len(m._vars) == n0 + ns + (0 if given else nb),
               "no further variables")
        if given and nb:
            h.true(all(p is q for p, q in zip(binary, pre)), "given binaries")
        if not given:
            h.true(all(v.vtype == ("B" if vtype == "B" else "C")
                       for v in binary), "type of the binaries")
            h.true(all((v in mip.zeta_indices) == (vtype != "C")
                       for v in binary), "binaries registered")
        x = list(h.reals("x", NX, -3, 3))
        s = list(h.reals("s", ns, -3, 3))
        b = [h.binary("b%d" % i) if vtype == "B" else h.real(
            "b%d" % i, -1, 2) for i in range(nb)]
        val = dict(zip(xv, x))
        val[dummy[0]] = 0.
        val.update(zip(slack, s))
        val.update(zip(binary, b))
        if with_out:
            y = list(h.reals("y", 2, -30, 30))
            val.update(zip(yv, y))
        if given and not nb:
            val.update(zip(pre, (0., 0.)))
        val = {v: SR.const(q) for v, q in val.items()}
        got = AND(m.feasible_conds(val, tol=0 if h.symbolic else Fraction(
            1, 10**9), skip_binary=True))
        want = [conds(h, c, x, s, b)]
        if vtype != "B" and nb:
            want += [AND(leq(h, -q), leq(h, q - 1)) for q in b]
        if "lo:x" in spec or "up:x" in spec:
            want += [AND(leq(h, p - q), leq(h, q - r)) for p, q, r in zip(
                h.elems(xlo), x, h.elems(xup))]
        if with_out:
            o = mic_out(h, c, x, s, b) or [0., 0.]
            want += [eqz(h, p - q) for p, q in zip(o, y)]
        same(h, got, AND(want), "program and constraint set agree")
        for k, v in c.__dict__.items():
            if v is not None:
                h.eq(v, keep[k], "operand unchanged")
            else:
                h.true(keep[k] is None, "operand unchanged")
        h.cover("placed")
    return f


for k, s in PLACE.items():
    R.put(place(s, "B", "out:" in s, False), "place_" + k,
          "all coefficients, bounds and point symbolic",
          tier="thorough" if k == "bounds" else "quick")
R.put(place(PLACE["full"], "B", False, False), "place_full_noout")
R.put(place(PLACE["full"], "R", True, False), "place_full_relaxed")
R.put(place(PLACE["full"], "C", True, False), "place_full_continuous")
R.put(place("in:xb out:xbc lo:b up:b", "R", True, False),
      "place_bounds_relaxed")
R.put(place(PLACE["full"], "B", True, True), "place_full_given")
R.put(place(PLACE["eq"], "B", True, True), "place_eq_given")
R.put(place(PLACE["out_sc"], "B", True, True), "place_given_unused")


def place_mirror(h):
    """The same set seen through the mirror."""
    g = loader.module("gurobi_torch_mip")
    GRB = g.gurobipy.GRB
    c = build(h, PLACE["full"])
    mip = g.GurobiTorchMILP(F64)
    xv = mip.addVars(NX, lb=-GRB.INFINITY)
    yv = mip.addVars(2, lb=-GRB.INFINITY)
    slack, binary = mip.add_mixed_integer_linear_constraints(
        c, xv, yv, "s", "b", "in", "eq", "out")
    x, s = list(h.reals("x", NX, -3, 3)), list(h.reals("s", 2, -3, 3))
    b = [h.binary("b%d" % i) for i in range(2)]
    y = list(h.reals("y", 2, -9, 9))
    val = dict(zip(xv + yv + slack, x + y + s))
    r = [val[v] for v in mip.r]
    A, Z, d = [pnp(v) for v in mip.get_inequality_constraints()]
    got = [leq(h, sum((p * q for p, q in zip(A[i], r)), 0) + sum(
        (p * q for p, q in zip(Z[i], b)), 0) - d[i]) for i in range(len(d))]
    M, w = [pnp(v) for v in mip.get_active_constraints(
        set(), h.as_tensor(np.array(b, dtype=object)))]
    got += [eqz(h, sum((p * q for p, q in zip(M[i], r)), 0) - w[i])
            for i in range(len(w))]
    want = [conds(h, c, x, s, b)] + [
        eqz(h, p - q) for p, q in zip(mic_out(h, c, x, s, b), y)]
    same(h, AND(got), AND(want), "mirror and constraint set agree")
    h.cover("mirror")


R.put(place_mirror, "place_mirror", "all coefficients and point symbolic")


# ---- affine map of the input
def transform(spec, nn):
    def f(h):
        c = build(h, spec)
        o = c.clone()
        A, b = h.tensor("A", (NX, nn)), h.tensor("b", NX)
        c.transform_input(A, b)
        z = h.reals("z", nn)
        x = list(pnp(A).dot(z) + h.elems(b))
        s = list(h.reals("s", 2))
        q = list(h.reals("q", 2, 0, 1))
        has = any(k in spec for k in ("in:x", "eq:x", "out:x"))
        h.true(c.num_input() == (nn if has else 0), "number of inputs")
        h.true((c.num_slack(), c.num_binary(), c.num_ineq(), c.num_eq(),
                c.num_out()) == (o.num_slack(), o.num_binary(), o.num_ineq(),
                                 o.num_eq(), o.num_out()), "sizes")
        for kind in ("in", "eq"):
            one = only(c, kind)
            two = only(o, kind)
            same_rows(h, one, two, kind, list(z), x, s, q)
        p, r = mic_out(h, c, list(z), s, q), mic_out(h, o, x, s, q)
        h.true((p is None) == (r is None), "output present")
        if p is not None:
            h.eq(np.array(p, dtype=object), np.array(r, dtype=object),
                 "output")
        for n in ("slack_lo", "slack_up", "binary_lo", "binary_up"):
            u, v = getattr(c, n), getattr(o, n)
            h.true((u is None) == (v is None), "bounds kept")
            if u is not None:
                h.eq(u, pnp(v), "bounds kept")
        h.cover("transformed")
    return f


def only(c, kind):
    return [getattr(c, "A%s_%s" % (kind, n)) for n in (
        "input", "slack", "binary")] + [getattr(c, "rhs_" + kind)]


def lhs(rows, vs):
    out = None
    for A, v in zip(rows[:3], vs):
        if A is None:
            continue
        r = [sum((p * q for p, q in zip(row, v)), 0) for row in pnp(A)]
        out = r if out is None else [p + q for p, q in zip(out, r)]
    d = pnp(rows[3])
    return [(out[i] if out is not None else 0) - d[i] for i in range(len(d))]


def same_rows(h, one, two, kind, x1, x2, s, q):
    h.true((one[3] is None) == (two[3] is None), kind + " rows present")
    if one[3] is None:
        return
    h.eq(np.array(lhs(one, (x1, s, q)), dtype=object),
         np.array(lhs(two, (x2, s, q)), dtype=object), kind + " rows")


TRANS = dict(PLACE)
TRANS.update(eq_x="eq:x in:s", out_x="out:x in:sb", nothing="in:s out:s")
for k in ("full", "ineq", "eq", "out", "eq_x", "out_x", "nothing", "const"):
    for nn in (1, 2, 3):
        R.put(transform(TRANS[k], nn), "transform_%s_%d" % (k, nn),
              "all coefficients, the map and the point symbolic")
R.put(transform("in:xsb out:xc lo:sb up:sb", 2), "transform_slack_bounds")


def transform_bounds(h):
    """Bounds on the old input must not be kept for the new one."""
    A, b = h.tensor("A", (NX, NX)), h.tensor("b", NX)
    for k, spec in enumerate(("in:xsb lo:x", "in:xs up:x",
                              "eq:x out:x lo:x up:x")):
        c = build(h, spec, "t%d" % k)
        o = c.clone()
        try:
            c.transform_input(A, b)
        except Exception:
            continue
        z = list(h.reals("z%d" % k, NX, -3, 3))
        s, q = list(h.reals("s%d" % k, 2)), list(h.reals("q%d" % k, 2, 0, 1))
        x = list(pnp(A).dot(np.array(z, dtype=object)) + h.elems(b))
        same(h, conds(h, c, z, s, q), conds(h, o, x, s, q),
             "bounds on the input")
    h.cover("bounds")


R.put(transform_bounds, "transform_bounds", "bounds, map, point symbolic")


# ---- copies
def clone(h):
    for k, spec in enumerate(list(PLACE.values()) +
                             ["in:xsb eq:xsb out:xsbc lo:xsb up:xsb"]):
        c = build(h, spec, "c%d" % k)
        keep = {n: (pnp(v).copy() if v is not None else None)
                for n, v in c.__dict__.items()}
        d = c.clone()
        h.true(set(d.__dict__) == set(c.__dict__), "fields")
        for n, v in keep.items():
            w = getattr(d, n)
            h.true((w is None) == (v is None), "absent parts " + n)
            if v is not None:
                h.eq(w, v, "copied " + n)
                w.mul_(2.)
                w.add_(1.)
        for n, v in keep.items():
            if v is not None:
                h.eq(getattr(c, n), v, "original untouched " + n)
    h.cover("clone")


R.put(clone, "clone", "every field symbolic")


# ---- stacking
def stack(s1, s2, same_slack, same_binary, stack_out, dims=None):
    def f(h):
        g = loader.module("gurobi_torch_mip")
        d1, d2 = dims or (dict(), dict())
        a, b = build(h, s1, "a", **d1), build(h, s2, "b", **d2)
        A, B = a.clone(), b.clone()
        c = g.concatenate_mixed_integer_constraints(a, b, same_slack,
                                                    same_binary, stack_out)
        ns1, ns2 = a.num_slack(), b.num_slack()
        nb1, nb2 = a.num_binary(), b.num_binary()
        ns = ns1 if same_slack else ns1 + ns2
        nb = nb1 if same_binary else nb1 + nb2
        x = list(h.reals("x", NX, -3, 3))
        s = list(h.reals("s", ns, -3, 3))
        q = list(h.reals("q", nb, 0, 1))
        sa, sb = s[:ns1], (s if same_slack else s[ns1:])
        qa, qb = q[:nb1], (q if same_binary else q[nb1:])
        h.true(c.num_slack() == ns or c.num_slack() == 0 and not any(
            k in (s1 + s2) for k in ("in:s", "in:xs", "eq:s", "eq:xs")),
            "slacks")
        got = conds(h, c, x, s, q)
        want = AND(conds(h, A, x, sa, qa), conds(h, B, x, sb, qb))
        same(h, got, want, "points of both sets")
        o = mic_out(h, c, x, s, q)
        if stack_out:
            oa = mic_out(h, A, x, sa, qa) or []
            ob = mic_out(h, B, x, sb, qb) or []
            if oa or ob:
                h.true(c.num_out() == len(oa) + len(ob), "outputs")
                h.eq(np.array(o, dtype=object), np.array(oa + ob,
                                                         dtype=object),
                     "stacked output")
        else:
            h.true(o is None, "output left out")
        # bounds fields have one entry for each variable
        for n, k in (("input", NX), ("slack", ns), ("binary", nb)):
            for e in ("lo", "up"):
                v = getattr(c, "%s_%s" % (n, e))
                u = [getattr(w, "%s_%s" % (n, e)) for w in (A, B)]
                h.true((v is None) == (u[0] is None and u[1] is None),
                       "%s_%s present" % (n, e))
                if v is not None:
                    h.true(tuple(v.shape) == (k, ), "%s_%s size" % (n, e))
        # the result can be changed without changing the operands
        T, t = h.tensor("T", (NX, 2)), h.tensor("t", NX)
        if c.input_lo is None and c.input_up is None:
            c.transform_input(T, t)
        for orig, now in ((A, a), (B, b)):
            for n, v in orig.__dict__.items():
                w = getattr(now, n)
                h.true((w is None) == (v is None), "operand kept")
                if v is not None:
                    h.eq(w, pnp(v), "operand kept")
        h.cover("stacked")
    return f


PAIRS = {
    "full": ("in:xsb eq:xsb out:xsbc", "in:xsb eq:xsb out:xsbc"),
    "half": ("in:xsb out:xsbc", "eq:xsb out:xb"),
    "half2": ("eq:xsb out:sc", "in:xsb out:c"),
    "none": ("in:xsb", "in:xsb eq:x"),
    "parts": ("in:x eq:sb out:x", "in:sb eq:x out:xs"),
    "parts2": ("in:sb eq:x out:xs", "in:x eq:sb out:b"),
    "bounds": ("in:xsb lo:xsb up:xsb", "in:xsb out:x lo:xsb up:xsb"),
    "bounds1": ("in:xsb lo:xsb up:xsb", "in:xsb out:x"),
    "bounds2": ("in:xsb", "in:xsb eq:x lo:xsb up:xsb"),
    "bounds3": ("in:xsb lo:xsb", "in:xsb eq:x up:xsb"),
}
for k, (p, q) in PAIRS.items():
    for ss, sb, so in itertools.product((False, True), repeat=3):
        name = "stack_%s_%d%d%d" % (k, ss, sb, so)
        tier = "quick" if (so and k != "bounds") or k == "full" or (
            k == "bounds" and ss == sb and so) else "thorough"
        R.put(stack(p, q, ss, sb, so), name,
              "all coefficients, bounds and point symbolic", tier=tier)
for k in ("full", "half", "parts2", "bounds1", "bounds2", "bounds3"):
    p, q = PAIRS[k]
    R.put(stack(p, q, False, False, True,
                (dict(ns=1, nb=2, ni=1, no=1), dict(ns=2, nb=1, ni=2, ne=2))),
          "stack_sizes_%s" % k, "operands of different sizes")
for k, (p, q) in {"noslack": ("in:xb out:x", "in:xsb out:xs"),
                  "nobinary": ("in:xsb eq:x out:xc", "in:xs out:xs"),
                  "plain": ("in:x out:x", "in:xsb out:xsc")}.items():
    R.put(stack(p, q, False, False, True), "stack_%s" % k,
          "one operand without slacks or binaries")
