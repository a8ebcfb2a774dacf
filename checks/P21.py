"""Parameterisations of the state-error transform."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import same
from symx import loader
from symx.lib import AND, sqrt, sin, cos, F64

HARNESSES = R = Registry()
BOUNDS = "Matrices up to 3x3, every entry symbolic."
ASSUMPTIONS = ["real arithmetic for float64",
               "a singular value decomposition returns some orthonormal "
               "factors whose product is the matrix"]


def spd(m, n, eps):
    def direct(h):
        ro = loader.module("r_options")
        o = ro.SearchRwithSPDOptions((m, n), eps)
        nv = n * (n + 1) // 2 + (m - n) * n
        h.true(tuple(o.variables()[0].shape) == (nv, ), "number of variables")
        v = h.array("v", nv)
        o.set_variable_value_directly(v)
        ve = h.elems(v).copy()
        h.eq(o.variables()[0], ve, "variables reported")
        h.true(o.variables()[0].requires_grad, "variables are trainable")
        h.true(not o.fixed_R, "not fixed")
        Rm = o.R()
        r = h.elems(Rm)
        h.true(tuple(r.shape) == (m, n), "shape")
        L = np.zeros((n, n), dtype=object)
        k = 0
        for j in range(n):
            for i in range(j, n):
                L[i, j] = ve[k]
                k += 1
        h.eq(r[:n], L.dot(L.T) + eps * np.eye(n), "top block L L' + eps I")
        if m > n:
            h.eq(r[n:].reshape(-1), ve[k:], "bottom block")
        # the margin: x' R_top x >= eps x'x for every x
        x = h.reals("x", n, -1, 1)
        if n <= 2:
            h.ge(x.dot(r[:n].dot(x)), eps * x.dot(x),
                 "gram matrix bounded below")
        # trainable: gradient reaches every variable
        g = torch.autograd.grad(Rm.sum(), o.variables()[0])[0]
        want = np.zeros(nv, dtype=object)
        k = 0
        for j in range(n):
            for i in range(j, n):
                want[k] = 2 * L[:, j].sum()
                k += 1
        want[k:] = 1.
        h.eq(g, want, "gradient")
        p = o.extract_params()
        h.true(tuple(p["R_size"]) == (m, n), "size recorded")
        h.eq(p["R_epsilon"], eps, "margin recorded")
        h.eq(p["R_variables"][0], ve, "variables recorded")
        h.cover("direct")

    def back(h):
        ro = loader.module("r_options")
        o = ro.SearchRwithSPDOptions((m, n), eps)
        a = np.zeros((m, n), dtype=object)
        for i in range(m):
            for j in range(n):
                if i < n and j > i:
                    continue
                a[i, j] = h.real("r%d%d" % (i, j), -2 if i != j else 0, 3)
        for i in range(n):
            for j in range(i + 1, n):
                a[i, j] = a[j, i]
        b = a[:n] - eps * np.eye(n)
        mins = [b[0, 0]]
        if n >= 2:
            mins.append(b[0, 0] * b[1, 1] - b[0, 1] * b[1, 0])
        if n >= 3:
            mins.append(b[0, 0] * (b[1, 1] * b[2, 2] - b[1, 2] * b[2, 1])
                        - b[0, 1] * (b[1, 0] * b[2, 2] - b[1, 2] * b[2, 0])
                        + b[0, 2] * (b[1, 0] * b[2, 1] - b[1, 1] * b[2, 0]))
        h.assume([v >= .01 for v in mins])
        o.set_variable_value(h.nparray(a))
        h.eq(o.R(), a, "matrix reproduced")
        h.true(o.variables()[0].requires_grad, "variables are trainable")
        h.cover("round trip")
    return direct, back


def svd(m, n):
    a = np.array([.25, .5, .75][:min(m, n)])

    def direct(h):
        ro = loader.module("r_options")
        o = ro.SearchRwithSVDOptions((m, n), a)
        v = h.array("v", min(m, n))
        ve = h.elems(v).copy()
        o.set_variable_value_directly(v)
        h.eq(o.variables()[0], ve, "variables reported")
        h.true(o.variables()[0].requires_grad, "variables are trainable")
        h.true(not o.fixed_R, "not fixed")
        S = np.zeros((m, n), dtype=object)
        for i in range(min(m, n)):
            S[i, i] = a[i] + ve[i] * ve[i]
        Rm = o.R()
        h.eq(Rm, S, "identity factors give the singular values")
        g = torch.autograd.grad(Rm.sum(), o.variables()[0])[0]
        h.eq(g, 2 * ve, "gradient")
        x = h.reals("x", n, -1, 1)
        r = h.elems(Rm)
        y = r.dot(x)
        if m >= n:
            h.ge(y.dot(y), .25**2 * x.dot(x), "singular values bounded below")

    def rot(t, k):
        c, s = cos(t), sin(t)
        q = np.eye(k).astype(object)
        q[0, 0], q[0, 1], q[1, 0], q[1, 1] = c, -s, s, c
        if k == 3:
            p = np.eye(3)[[2, 0, 1]].astype(object)
            q = q.dot(p)
        return q

    def back(h):
        from symx import npshim
        ro = loader.module("r_options")
        o = ro.SearchRwithSVDOptions((m, n), a)
        k = min(m, n)
        U = rot(h.real("tu", -3, 3), m)
        V = rot(h.real("tv", -3, 3), n)
        s = h.reals("s", k, 0, 3)
        h.assume([s[i] >= a[i] + .01 for i in range(k)])
        h.assume([s[i] >= s[i + 1] for i in range(k - 1)])
        S = np.zeros((m, n), dtype=object)
        for i in range(k):
            S[i, i] = s[i]
        M = U.dot(S).dot(V)
        if h.symbolic:
            npshim.SVD[0] = lambda *a, **k: (h.nparray(U), h.nparray(s),
                                             h.nparray(V))
        try:
            o.set_variable_value(h.nparray(M))
            h.eq(o.R(), M, "matrix reproduced")
        finally:
            npshim.SVD[0] = None
        h.true(o.variables()[0].requires_grad, "variables are trainable")
        vals = h.elems(o.variables()[0])
        h.eq(vals * vals + a, s, "singular values above the margin")
        # new parameters move the singular values and keep the factors
        w = h.array("w", k)
        we = h.elems(w).copy()
        o.set_variable_value_directly(w)
        S2 = np.zeros((m, n), dtype=object)
        for i in range(k):
            S2[i, i] = a[i] + we[i] * we[i]
        if h.symbolic:
            h.eq(o.R(), U.dot(S2).dot(V), "factors kept")
        p = o.extract_params()
        h.true(tuple(p["R_size"]) == (m, n), "size recorded")
        h.eq(p["R_a"], a, "margin recorded")
    return direct, back


def free(h):
    ro = loader.module("r_options")
    for i, sh in enumerate([(2, 2), (3, 2), (1, 3)]):
        o = ro.SearchRfreeOptions(sh)
        h.true(not o.fixed_R, "not fixed")
        a = h.array("a%d" % i, sh)
        ae = h.elems(a).copy()
        o.set_variable_value(a)
        h.eq(o.R(), ae, "matrix reproduced")
        h.true(o.variables()[0].requires_grad, "trainable")
        b = h.array("b%d" % i, sh)
        be = h.elems(b).copy()
        o.set_variable_value_directly(b)
        h.eq(o.R(), be, "matrix set directly")
        h.eq(o.variables()[0], be, "variables reported")
        h.true(tuple(o.extract_params()["R_size"]) == sh, "size recorded")


def fixed(h):
    ro = loader.module("r_options")
    a = h.tensor("a", (3, 2))
    ae = h.elems(a).copy()
    o = ro.FixedROptions(a)
    h.eq(o.R(), ae, "matrix kept")
    h.true(o.fixed_R is True, "fixed")
    h.true(len(o.variables()) == 0, "nothing to train")
    h.true(o.extract_params() is not None, "parameters")


for m, n, e in ((1, 1, .25), (2, 1, .01), (2, 2, .25), (3, 2, .125),
                (4, 2, .5), (3, 3, .25)):
    d, b = spd(m, n, e)
    R.put(d, "spd_direct_%d%d" % (m, n), "size %dx%d" % (m, n))
    R.put(b, "spd_roundtrip_%d%d" % (m, n), "size %dx%d, positive definite "
          "with margin" % (m, n))
for m, n in ((2, 2), (3, 2), (2, 3)):
    d, b = svd(m, n)
    R.put(d, "svd_direct_%d%d" % (m, n), "size %dx%d" % (m, n))
    R.put(b, "svd_roundtrip_%d%d" % (m, n), "size %dx%d, factors rotations"
          % (m, n))
R.put(free, "free", "2x2, 3x2, 1x3")
R.put(fixed, "fixed", "3x2")


def past(m, n):
    """The matrix follows the variables, whatever they were before."""
    def f(h):
        ro = loader.module("r_options")
        nv = n * (n + 1) // 2 + (m - n) * n
        v, w = h.array("v", nv), h.array("w", nv)

        def ask(o):
            Rm = o.R()
            return Rm, torch.autograd.grad(Rm.sum(), o.variables()[0])[0]
        o = ro.SearchRwithSPDOptions((m, n), .125)
        o.set_variable_value_directly(v.copy())
        ask(o)
        o.set_variable_value_directly(w.copy())
        q = ro.SearchRwithSPDOptions((m, n), .125)
        q.set_variable_value_directly(w.copy())
        same(h, ask(o), ask(q), "set twice")
        # as an optimizer does
        with torch.no_grad():
            for p, e in zip(o.variables(), q.variables()):
                p.copy_(h.as_tensor(v))
                e.copy_(h.as_tensor(v))
        same(h, ask(o), ask(q), "changed in place")
        t = ro.SearchRwithSPDOptions((m, n), .125)
        t.set_variable_value_directly(v.copy())
        same(h, ask(o), ask(t), "changed in place")
        h.cover("twice")
    return f


for m, n in ((2, 2), (3, 2), (1, 1), (2, 1)):
    R.put(past(m, n), "history_spd_%d%d" % (m, n), "variables symbolic")


def past_free(h):
    ro = loader.module("r_options")
    v, w = h.array("v", (3, 2)), h.array("w", (3, 2))
    o, q = [ro.SearchRfreeOptions((3, 2)) for _ in "ab"]
    o.set_variable_value(v.copy())
    o.R()
    o.set_variable_value(w.copy())
    q.set_variable_value(w.copy())
    same(h, o.R(), q.R(), "set twice")
    with torch.no_grad():
        o.variables()[0].copy_(h.as_tensor(v))
    h.eq(h.elems(o.R()), h.elems(v), "changed in place")
    h.cover("twice")


R.put(past_free, "history_free", "3x2")
