"""Fixed-step Runge-Kutta integration with held control."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader

HARNESSES = R = Registry()
BOUNDS = "1..3 steps (4 in thorough), states of size 1..2."
ASSUMPTIONS = ["real arithmetic for float64"]


def mk(kind, n, steps, tensor):
    def f(h):
        it = loader.module("integrator")
        mkv = h.tensor if tensor else h.array
        x0 = mkv("x", n)
        dt = h.real("dt", 0, 1)
        calls = []
        if kind == "linear":
            A = mkv("A", (n, n))
            B = mkv("B", (n, 1))

            def dyn(x, u):
                return A @ x + B @ u
        elif kind == "quadratic":
            c = mkv("c", n)

            def dyn(x, u):
                return c * x * x + u[0]
        else:
            # every call returns a fresh arbitrary value: the map is checked
            # as an expression in its four slopes
            log = []

            def dyn(x, u):
                k = mkv("k%d" % len(log), n)
                log.append((x, u, k))
                return k

        def ctrl(x):
            calls.append(x)
            return mkv("u%d" % len(calls), 1)
        x, u = it.rk4_constant_control(dyn, ctrl, x0, dt, steps)
        h.true(len(calls) == 1, "control evaluated once")
        h.eq(calls[0], h.elems(x0), "control evaluated at the initial state")
        h.eq(u, u1(h, tensor), "control returned")
        # reference
        z = h.elems(x0)
        uu = h.elems(u1(h, tensor))
        if kind == "free":
            h.true(len(log) == 4 * steps, "four slopes in each step")
            for s in range(min(steps, len(log) // 4)):
                ks = [h.elems(log[4 * s + i][2]) for i in range(4)]
                at = [z, z + dt * ks[0] * .5, z + dt * ks[1] * .5,
                      z + dt * ks[2]]
                for i in range(4):
                    h.eq(log[4 * s + i][0], at[i], "slope %d taken at" % i)
                    h.eq(log[4 * s + i][1], uu, "slope %d control" % i)
                z = z + dt / 6. * (ks[0] + 2 * ks[1] + 2 * ks[2] + ks[3])
        else:
            def fr(z):
                if kind == "linear":
                    return h.elems(A).dot(z) + h.elems(B).dot(uu)
                return h.elems(c) * z * z + uu[0]
            for s in range(steps):
                k1 = fr(z)
                k2 = fr(z + dt * .5 * k1)
                k3 = fr(z + dt * .5 * k2)
                k4 = fr(z + dt * k3)
                z = z + dt / 6. * (k1 + 2 * k2 + 2 * k3 + k4)
        h.eq(x, z, "final state")
        h.cover("reached")
    memo = {}

    def u1(h, tensor):
        return f.u
    # the control value is shared between the run and the reference

    def g(h):
        f.u = None
        mkv = h.tensor if tensor else h.array
        orig = mkv

        def rec(name, *a, **k):
            v = orig(name, *a, **k)
            if name == "u1":
                f.u = v
            return v
        if tensor:
            h.tensor = rec
        else:
            h.array = rec
        f(h)
    return g


def poly(h):
    """Exact for time polynomials of degree three."""
    it = loader.module("integrator")
    c = h.reals("c", 4)
    dt = h.real("dt", 0, 1)
    x0 = h.as_tensor(np.array([h.real("x"), h.real("t")], dtype=object))

    def dyn(x, u):
        t = x[1]
        return torch.stack((c[0] + c[1] * t + c[2] * t * t +
                            c[3] * t * t * t, t * 0 + 1.))
    x, _ = it.rk4_constant_control(
        dyn, lambda x: torch.zeros(1, dtype=torch.float64), x0, dt, 2)
    e = h.elems(x0)
    t0, t1 = e[1], e[1] + 2 * dt

    def P(t):
        return (c[0] * t + c[1] * t * t / 2. + c[2] * t * t * t / 3. +
                c[3] * t * t * t * t / 4.)
    h.eq(x[0], e[0] + P(t1) - P(t0), "cubic in time integrated exactly")
    h.eq(x[1], t1, "time advanced")


def nocontrol(h):
    it = loader.module("integrator")
    x0 = h.tensor("x", 2)
    u0 = h.tensor("u", 2)
    x, u = it.rk4_constant_control(lambda x, u: x + u, lambda x: u0, x0,
                                   h.real("dt", 0, 1), 0)
    h.eq(x, h.elems(x0), "zero steps leave the state")
    h.eq(u, h.elems(u0), "zero steps return the control")


for t in (True, False):
    s = "torch" if t else "numpy"
    for k in (1, 2, 3):
        R.put(mk("free", 2, k, t), "free_%d_%s" % (k, s),
              "%d steps, arbitrary slopes and dt" % k)
    R.put(mk("linear", 2, 1, t), "linear_1_" + s, "2 states, arbitrary A, B")
    R.put(mk("linear", 1, 2, t), "linear_2_" + s, "1 state, arbitrary A, B")
    R.put(mk("quadratic", 1, 1, t), "quadratic_1_" + s, "x' = c x^2 + u")
    R.put(mk("free", 2, 4, t), "free_4_" + s, "4 steps", tier="thorough")
R.put(poly, "time_polynomial", "degree 3, two steps")
R.put(nocontrol, "zero_steps", "no step")
