"""Spring-loaded hopper: flows, guards, transitions, gradients."""
import types

import numpy as np
from symx.driver import Registry
from symx import loader
from symx.lib import AND, OR, NOT, IMPLIES, IFF, sin, cos, sqrt

HARNESSES = R = Registry()
BOUNDS = ("Mass, rest length, stiffness and gravity symbolic in [1/2,4] "
          "(stiffness [1,100], gravity [1,12]); states in [-5,5], leg "
          "lengths in [1/4,3], leg angles in [-3/2,3/2]; one or two steps of "
          "simulation; stepping stones with finite or infinite ends.")
ASSUMPTIONS = [
    "real arithmetic for float64",
    "sine and cosine are any functions with sin^2+cos^2=1, positive cosine "
    "inside a quarter turn",
    "the initial value solver is replaced by a stand-in that returns an "
    "arbitrary final state, event time and sensitivity; what it is asked to "
    "integrate (field, start, span, events) is checked"]


def model(h, cls=None):
    m = loader.module("spring_loaded_inverted_pendulum")
    m0, l0, k, g = (h.real("m", .5, 4), h.real("l0", .5, 4),
                    h.real("k", 1, 100), h.real("g", 1, 12))
    p = types.SimpleNamespace(m=m0, l0=l0, k=k, g=g, mod=m)
    if cls is None:
        p.s = m.SLIP(m0, l0, k, g)
    else:
        p.s = cls(m0, l0, k, g)
    return p


def arr(h, v):
    return h.nparray(np.array(list(v), dtype=object))


def el(h, a):
    return np.array(h.elems(a) if not isinstance(a, np.ndarray) else a,
                    dtype=object)


def stance_state(h, n="s"):
    return np.array([h.real(n + "r", .25, 3), h.real(n + "th", -1.5, 1.5),
                     h.real(n + "rd", -5, 5), h.real(n + "thd", -5, 5),
                     h.real(n + "xf", -5, 5)], dtype=object)


def angle(h, n="th"):
    """A leg angle off the horizontal."""
    th = h.real(n, -1.5, 1.5)
    if h.symbolic:
        h.assume(cos(th) > 0)
    return th


def field(p, s):
    """Stance field from Cartesian mechanics: gravity plus the spring along
    the leg, hip at (xf - r sin, r cos)."""
    r, th, rd, td = s[:4]
    return np.array([
        rd, td, r * td * td - p.g * cos(th) + p.k / p.m * (p.l0 - r),
        (p.g * sin(th) - 2 * rd * td) / r, 0], dtype=object)


def field_jac(p, s):
    r, th, rd, td = s[:4]
    S, C = sin(th), cos(th)
    J = np.zeros((5, 5), dtype=object)
    J[0, 2] = 1
    J[1, 3] = 1
    J[2, :4] = [td * td - p.k / p.m, p.g * S, 0, 2 * r * td]
    J[3, :4] = [(2 * rd * td - p.g * S) / (r * r), p.g * C / r, -2 * td / r,
                -2 * rd / r]
    return J


def td_map(p, x, th):
    S, C = sin(th), cos(th)
    return np.array([p.l0, th, x[3] * C - x[2] * S,
                     (-x[2] * C - x[3] * S) / p.l0, x[0] + p.l0 * S],
                    dtype=object)


def lo_map(p, s):
    r, th, rd, td, xf = s
    S, C = sin(th), cos(th)
    return np.array([xf - p.l0 * S, p.l0 * C, -rd * S - p.l0 * td * C,
                     rd * C - p.l0 * td * S], dtype=object)


def lo_jac(p, s):
    """On the liftoff surface, columns theta, rdot, thetadot, xfoot."""
    r, th, rd, td, xf = s
    S, C, l = sin(th), cos(th), p.l0
    return np.array([[0, -l * C, 0, 0, 1], [0, -l * S, 0, 0, 0],
                     [0, l * td * S - rd * C, -S, -l * C, 0],
                     [0, -l * td * C - rd * S, C, -l * S, 0]], dtype=object)


def td_jac(p, x, th):
    S, C, l = sin(th), cos(th), p.l0
    J = np.array([[0, 0, 0, 0], [0, 0, 0, 0], [0, 0, -S, C],
                  [0, 0, -C / l, -S / l], [1, 0, 0, 0]], dtype=object)
    d = np.array([0, 1, -x[2] * C - x[3] * S, (x[2] * S - x[3] * C) / l,
                  l * C], dtype=object)
    return J, d


# -------------------------------------------------------------- dynamics
def dynamics(h):
    p = model(h)
    x = h.reals("x", 4, -5, 5)
    f = el(h, p.s.flight_dynamics(arr(h, x)))
    h.eq(f, np.array([x[2], x[3], 0, -p.g], dtype=object), "flight field")
    # dE/dt along the field, from the reported energy: E is affine in height
    # and quadratic in the velocity, so the two-sided difference is exact
    E = p.s.flight_phase_energy
    dE = (E(arr(h, x + f)) - E(arr(h, x - f))) / 2
    h.eq(dE, 0., "flight energy is conserved")
    h.eq(E(arr(h, x)), p.m * (x[2] * x[2] + x[3] * x[3]) / 2 +
         p.m * p.g * x[1], "flight energy")
    h.eq(p.s.apex_guard(arr(h, x)), x[3], "apex guard")
    h.cover("flight")


def stance(h):
    p = model(h)
    s = stance_state(h)
    r, th, rd, td, xf = s
    f = el(h, p.s.stance_dynamics(arr(h, s)))
    h.true(f.shape == (5, ), "stance field")
    h.eq(f[0], rd, "leg rate")
    h.eq(f[1], td, "angle rate")
    h.eq(f[4], 0., "the foot stays")
    S, C = sin(th), cos(th)
    rdd, tdd = f[2], f[3]
    # Newton in Cartesian coordinates
    xdd = -rdd * S - 2 * rd * td * C - r * tdd * C + r * td * td * S
    zdd = rdd * C - 2 * rd * td * S - r * tdd * S - r * td * td * C
    F = p.k * (p.l0 - r)
    h.eq(p.m * xdd, -F * S, "horizontal force is the spring's")
    h.eq(p.m * zdd, F * C - p.m * p.g, "vertical force")
    h.eq(p.s.stance_phase_energy(arr(h, s)),
         p.m * (r * r * td * td + rd * rd) / 2 + p.k * (p.l0 - r)**2 / 2 +
         p.m * p.g * r * C, "stance energy")
    dE = p.m * (r * td * (rd * td + r * tdd) + rd * rdd) - F * rd + \
        p.m * p.g * (rd * C - r * S * td)
    h.eq(dE, 0., "stance energy is conserved")
    h.eq(p.s.liftoff_guard(arr(h, s)), r - p.l0, "liftoff guard")
    G = el(h, p.s.stance_dynamics_gradient(arr(h, s)))
    h.eq(G, field_jac(p, s), "gradient of the stance field")
    h.cover("stance")


def transitions(h):
    p = model(h)
    th = angle(h)
    x = h.reals("x", 4, -5, 5)
    h.eq(p.s.touchdown_guard(arr(h, x), th), x[1] - p.l0 * cos(th),
         "touchdown guard")
    x[1] = p.l0 * cos(th)
    post = el(h, p.s.touchdown_transition(arr(h, x), th))
    h.eq(post, td_map(p, x, th), "touchdown map")
    h.eq(p.s.liftoff_guard(arr(h, post)), 0.,
         "the leg has its rest length at touchdown")
    h.eq(p.s.stance_phase_energy(arr(h, post)),
         p.s.flight_phase_energy(arr(h, x)), "energy at touchdown")
    h.eq(el(h, p.s.liftoff_transition(arr(h, post))), x,
         "liftoff inverts touchdown")
    s = stance_state(h)
    s[0] = p.l0
    out = el(h, p.s.liftoff_transition(arr(h, s)))
    h.eq(out, lo_map(p, s), "liftoff map")
    h.eq(p.s.touchdown_guard(arr(h, out), s[1]), 0.,
         "the touchdown guard vanishes at liftoff")
    h.eq(p.s.flight_phase_energy(arr(h, out)),
         p.s.stance_phase_energy(arr(h, s)), "energy at liftoff")
    back = el(h, p.s.touchdown_transition(arr(h, out), s[1]))
    h.eq(back, s, "touchdown inverts liftoff")
    J, d = p.s.touchdown_transition_gradient(arr(h, x), th)
    Jw, dw = td_jac(p, x, th)
    h.eq(el(h, J), Jw, "touchdown gradient in the state")
    h.eq(el(h, d).reshape(-1), dw, "touchdown gradient in the angle")
    G = el(h, p.s.liftoff_transition_gradient(arr(h, s)))
    h.true(G.shape == (4, 5), "shape of the liftoff gradient")
    h.eq(G[:, 1:], lo_jac(p, s)[:, 1:], "liftoff gradient on the guard")
    h.cover("transition")


R.put(dynamics, "flight", "one flight state")
R.put(stance, "stance", "one stance state")
R.put(transitions, "transitions", "one pre-touchdown and one liftoff state")


# ------------------------------------------------------------- touchdown
def stone(h, p, kind):
    lo = -np.inf if kind in ("line", "right") else h.real("left", -9, 9)
    up = np.inf if kind in ("line", "left") else h.real("right", -9, 9)
    if kind == "both":
        h.assume(lo < up)
    ht = h.real("height", -2, 2)
    return p.mod.SteppingStone(lo, up, ht), lo, up, ht


def time_to(kind):
    def f(h):
        p = model(h)
        th = angle(h)
        x = h.reals("x", 4, -5, 5)
        st, lo, up, ht = stone(h, p, kind)
        h.true(AND(st.height == ht), "stone")
        t = p.s.time_to_touchdown(arr(h, x), st, th)
        a = x[1] - p.l0 * cos(th) - ht   # clearance of the foot
        disc = x[3] * x[3] + 2 * p.g * a
        if t is None:
            tt = (x[3] + sqrt(abs(disc))) / p.g
            fx = x[0] + x[2] * tt + p.l0 * sin(th)
            bad = [a < 0]
            if lo != -np.inf:
                bad.append(fx < lo)
            if up != np.inf:
                bad.append(fx > up)
            h.true(OR(bad), "no touchdown although the foot meets the stone")
            h.cover("missed")
        else:
            h.true(a >= 0, "the foot starts above the stone")
            h.ge(t, 0., "time")
            h.eq(a + x[3] * t - p.g * t * t / 2, 0.,
                 "the foot is at the height of the stone")
            h.le(x[3] - p.g * t, 0., "from above")
            fx = x[0] + x[2] * t + p.l0 * sin(th)
            if lo != -np.inf:
                h.ge(fx, lo, "left end")
            if up != np.inf:
                h.le(fx, up, "right end")
            h.cover("touched")
        h.true(p.s.can_touch_stepping_stone(arr(h, x), st, th) ==
               (t is not None), "can touch")
    return f


for k_ in ("both", "line", "left", "right"):
    R.put(time_to(k_), "time-to-touchdown-" + k_, "stone with ends: " + k_,
          tier="quick" if k_ in ("both", "line") else "thorough")


def fall(h, p, th, ap, cov=True):
    """Quantities at touchdown from the apex (x, z, xdot): pre-touchdown
    state, its gradients, and those of the time."""
    a = ap[1] - p.l0 * cos(th)
    t = sqrt(2 * a / p.g)
    S, C = sin(th), cos(th)
    dz = 1 / (p.g * t)            # g t^2/2 = z - l0 cos
    dth = p.l0 * S / (p.g * t)
    x = np.array([ap[0] + ap[2] * t, p.l0 * C, ap[2], -p.g * t],
                 dtype=object)
    J = np.array([[1, ap[2] * dz, t], [0, 0, 0], [0, 0, 1],
                  [0, -p.g * dz, 0]], dtype=object)
    d = np.array([ap[2] * dth, -p.l0 * S, 0, -p.g * dth], dtype=object)
    return t, x, J, d, np.array([0, dz, 0], dtype=object), dth


def apex_td(h):
    p = model(h)
    th = angle(h)
    ap = h.reals("ap", 3, -5, 5)
    h.assume(OR(ap[1] - p.l0 * cos(th) > .01, ap[1] - p.l0 * cos(th) < 0))
    r = p.s.apex_to_touchdown_gradient(arr(h, ap), th)
    h.true(len(r) == 6, "six results")
    if r[0] is None:
        h.true(all(q is None for q in r), "all or nothing")
        h.true(ap[1] - p.l0 * cos(th) < 0, "nothing only below the ground")
        h.cover("none")
        return
    h.true(ap[1] - p.l0 * cos(th) >= 0, "the foot starts above the ground")
    t, x, J, d, dt, dtth = fall(h, p, th, ap)
    h.eq(r[5], t, "time to touchdown")
    h.eq(el(h, r[2]), x, "state before touchdown")
    h.eq(el(h, r[3]), dt, "gradient of the time")
    h.eq(r[4], dtth, "gradient of the time in the angle")
    h.eq(el(h, r[0]), J, "gradient in the apex state")
    h.eq(el(h, r[1]), d, "gradient in the angle")
    h.cover("some")


def lo_apex(h):
    p = model(h)
    x = h.reals("x", 4, -5, 5)
    r = p.s.liftoff_to_apex_gradient(arr(h, x))
    h.true(len(r) == 4, "four results")
    if r[0] is None:
        h.true(x[3] < 0, "an upward liftoff has an apex")
        h.cover("none")
        return
    h.ge(x[3], 0., "a downward liftoff has no apex")
    t = x[3] / p.g
    h.eq(r[3], t, "time to the apex")
    h.eq(el(h, r[1]), np.array([x[0] + x[2] * t, x[1] + x[3] * t / 2, x[2]],
                               dtype=object), "apex")
    h.eq(el(h, r[0]), np.array([[1, 0, t, x[2] / p.g], [0, 1, 0, t],
                                [0, 0, 1, 0]], dtype=object), "gradient")
    h.eq(el(h, r[2]), np.array([0, 0, 0, 1 / p.g], dtype=object),
         "gradient of the time")
    h.cover("some")


R.put(apex_td, "apex-to-touchdown", "one apex state")
R.put(lo_apex, "liftoff-to-apex", "one liftoff state")


# ------------------------------------------------- with the solver stand-in
def dtype(h, p):
    if h.symbolic:
        p.s.dtype = np.dtype(object)


class Ivp:
    """Arbitrary outcome for every call; checks what is integrated."""
    def __init__(self, h, p, outcomes):
        self.h, self.p, self.outcomes = h, p, list(outcomes)
        self.calls = []

    def __enter__(self):
        self.save = self.p.mod.solve_ivp
        self.p.mod.solve_ivp = self
        return self

    def __exit__(self, *a):
        self.p.mod.solve_ivp = self.save

    def __call__(self, fun, t_span, y0, **k):
        h, i = self.h, len(self.calls)
        c = types.SimpleNamespace(fun=fun, span=tuple(t_span), k=k,
                                  y0=el(h, y0).copy())
        self.calls.append(c)
        ev = k.get("events")
        c.ev = list(ev) if isinstance(ev, (list, tuple)) else [ev]
        # events at an arbitrary point, evaluated when they would be
        c.q = h.reals("evq%d_" % i, 4, -5, 5)
        n = len(c.y0)
        if n != 4:
            c.q = np.concatenate((c.q, h.reals("evp%d_" % i, 1, -5, 5),
                                  np.zeros(n - 5)))
        c.ev = [e for e in c.ev if e is not None]
        c.ev0 = [e(0., arr(h, c.q)) for e in c.ev]
        c.t = h.real("tend%d" % i, 0, 5)
        kind = self.outcomes[i]
        n = len(c.y0)
        if n == 4:
            y = h.reals("yf%d_" % i, 4, -5, 5)
        else:
            y = stance_state(h, "yf%d_" % i)
            if kind == "lo":
                y[0] = self.p.l0
                h.assume(y[2] > .1)
            if n == 30:
                y = np.concatenate((y, h.reals("Phi%d_" % i, 25, -3, 3)))
        if n != 4:
            h.assume(AND(y[1] < 1.5, y[1] > -1.5))
            if kind == "fall-":
                y[1] = -np.pi / 2
            elif kind == "fall+":
                y[1] = np.pi / 2
        c.y = y
        mid = h.reals("ym%d_" % i, n, -5, 5)
        Y = np.empty((n, 3), dtype=object)
        Y[:, 0], Y[:, 1], Y[:, 2] = c.y0, mid, y
        Y = h.nparray(Y)
        t0 = t_span[0]
        c.tend = t0 + c.t
        T = h.nparray(np.array([t0, t0 + c.t / 2, c.tend], dtype=object))
        tev = [[] for _ in c.ev]
        which = {"td": 0, "lo": 0, "fall-": 1, "fall+": 2}[kind]
        tev[min(which, len(tev) - 1)] = [c.tend]
        c.sol = types.SimpleNamespace(y=Y, t=T, t_events=[
            h.nparray(np.array(q, dtype=object)) for q in tev])
        return c.sol


def check_events(h, p, c):
    """Stance: liftoff with the leg extending, and the leg lying down."""
    s, v = c.q, c.ev0
    h.true(len(v) >= 2, "liftoff and fall events")
    h.true(all(getattr(e, "terminal", False) for e in c.ev),
           "events end the phase")
    ds = [getattr(e, "direction", 0) for e in c.ev]
    h.true(all(d in (1, -1) for d in ds), "directions")
    safe = [d * e < 0 for d, e in zip(ds, v)]   # before the event
    h.true(IFF(safe[0], s[0] < p.l0), "liftoff event")
    h.true(IFF(AND(safe[1:]), AND(s[1] > -np.pi / 2, s[1] < np.pi / 2)),
           "the run ends when the leg lies down, on either side")


def stance_call(h, p, c, x0, t0=0., end=None):
    h.eq(c.y0[:5], x0, "start of the stance phase")
    h.eq(c.span[0], t0, "start time")
    if end is not None:
        h.true(c.span[1] >= end, "span")
    s = stance_state(h, "fs")
    if len(c.y0) == 5:
        h.eq(el(h, c.fun(0., arr(h, s))), field(p, s), "stance field")
    check_events(h, p, c)


def flow(kind):
    """touchdown_to_liftoff_gradient."""
    def f(h):
        p = model(h)
        x0 = stance_state(h)
        with Ivp(h, p, [kind]) as iv:
            r = p.s.touchdown_to_liftoff_gradient(arr(h, x0))
        h.true(len(r) == 4 and len(iv.calls) == 1, "four results")
        c = iv.calls[0]
        h.true(len(c.y0) == 30, "state and sensitivity")
        h.eq(c.y0[5:], np.eye(5).reshape(-1), "initial sensitivity")
        stance_call(h, p, c, x0, 0., 10)
        s = stance_state(h, "fs2")
        Ph = h.reals("fPhi", 25, -3, 3)
        d = el(h, c.fun(0., arr(h, np.concatenate((s, Ph)))))
        h.eq(d[:5], field(p, s), "field")
        h.eq(d[5:].reshape((5, 5)), field_jac(p, s).dot(Ph.reshape((5, 5))),
             "variational equation")
        if kind != "lo":
            h.true(all(q is None for q in r), "no liftoff, no gradient")
            h.cover("fell")
            return
        D, x, dt, t = r
        h.eq(t, c.tend, "time of liftoff")
        h.eq(el(h, x), c.y[:5], "state at liftoff")
        want, dtw = saltation(p, c)
        h.eq(el(h, dt), dtw, "gradient of the liftoff time")
        h.eq(el(h, D), want, "gradient of the state at liftoff")
        h.eq(el(h, D)[0], np.zeros(5), "the leg length stays at rest length")
        h.cover("lifted")
    return f


def saltation(p, c):
    """d x(T(x0))/dx0 with r(T) = l0: Phi + f dT, dT = -Phi_r / rdot."""
    Phi = c.y[5:].reshape((5, 5))
    dt = -Phi[0] / c.y[2]
    fl = field(p, c.y[:5])
    return Phi + np.outer(fl, dt), dt


for k_ in ("lo", "fall-", "fall+"):
    R.put(flow(k_), "stance-flow-" + k_, "one stance phase ending in " + k_)


def apex_map(kind):
    def f(h):
        p = model(h)
        th = angle(h)
        ap = h.reals("ap", 3, -5, 5)
        with Ivp(h, p, [kind]) as iv:
            r = p.s.apex_map(ap[0], ap[1], ap[2], th)
        h.true(len(r) == 4, "four results")
        a = ap[1] - p.l0 * cos(th)
        wrong = OR(a < 0, AND(ap[2] > 0, th < 0), AND(ap[2] < 0, th > 0))
        if not iv.calls:
            h.true(all(q is None for q in r), "no step")
            h.true(wrong, "a step is possible")
            h.cover("none")
            return
        h.true(NOT(wrong), "no step is possible")
        c = iv.calls[0]
        t, pre, *_ = fall(h, p, th, ap)
        stance_call(h, p, c, td_map(p, pre, th), 0.)
        lo = lo_map(p, c.y)
        if kind != "lo":
            h.true(all(q is None for q in r), "the hopper falls")
            h.cover("fell")
            return
        if r[0] is None:
            h.true(all(q is None for q in r), "all or nothing")
            h.true(lo[3] < 0, "an upward liftoff has an apex")
            h.cover("down")
            return
        h.ge(lo[3], 0., "a downward liftoff has no apex")
        t2 = lo[3] / p.g
        h.eq(r[0], lo[0] + lo[2] * t2, "next position")
        h.eq(r[1], lo[1] + lo[3] * t2 / 2, "next height")
        h.eq(r[2], lo[2], "next velocity")
        h.eq(r[3], t + c.tend + t2, "time")
        # energy of the next apex is that of the liftoff state
        E = p.s.flight_phase_energy
        h.eq(E(arr(h, [r[0], r[1], r[2], 0.])), E(arr(h, lo)),
             "energy of the next apex")
        h.cover("step")
    return f


for k_ in ("lo", "fall-", "fall+"):
    R.put(apex_map(k_), "apex-map-" + k_, "one step ending in " + k_,
          tier="thorough" if k_ == "fall+" else "quick")


def simulate(outcomes, steps):
    def f(h):
        p = model(h)
        dtype(h, p)
        ths = [angle(h, "th%d" % i) for i in range(steps)]
        x = h.reals("x", 4, -5, 5)
        h.assume(x[1] > p.l0 * cos(ths[0]))
        with Ivp(h, p, outcomes) as iv:
            sol = p.s.simulate(arr(h, x), ths)
        n = len(iv.calls)
        h.true(len(sol) == n and all(
            a is b.sol for a, b in zip(sol, iv.calls)),
            "one solution per phase, in order")
        h.true(n % 2 == 0 and n >= 2, "phases come in pairs")
        t = 0.
        for i in range(n // 2):
            fl, stn = iv.calls[2 * i:2 * i + 2]
            h.eq(fl.y0, x, "start of flight %d" % i)
            h.eq(fl.span[0], t, "time of flight %d" % i)
            h.true(len(fl.ev) == 1 and fl.ev[0].terminal and
                   fl.ev[0].direction == -1, "touchdown event")
            q = h.reals("q%d_" % i, 4, -5, 5)
            h.eq(el(h, fl.fun(0., arr(h, q))),
                 np.array([q[2], q[3], 0, -p.g], dtype=object),
                 "flight field")
            h.eq(fl.ev0[0], fl.q[1] - p.l0 * cos(ths[i]),
                 "touchdown event of flight %d" % i)
            stance_call(h, p, stn, td_map(p, fl.y, ths[i]), fl.tend) \
                if i == 0 else h.eq(stn.y0, td_map(p, fl.y, ths[i]),
                                    "start of stance %d" % i)
            if outcomes[2 * i + 1] != "lo":
                h.true(n == 2 * i + 2, "the run ends when the hopper falls")
                h.cover("fell")
                return
            lo = lo_map(p, stn.y)
            t2 = lo[3] / p.g
            x = np.array([lo[0] + lo[2] * t2, lo[1] + lo[3] * t2 / 2, lo[2],
                          0.], dtype=object)
            t = stn.tend + t2
        if n // 2 < steps:
            h.true(x[1] <= p.l0 * cos(ths[n // 2]), "the run stops early")
            h.cover("stopped")
        else:
            h.cover("all")
    return f


R.put(simulate(["td", "lo"], 1), "simulate-1", "one step")
R.put(simulate(["td", "fall-"], 1), "simulate-fall-left", "one step, falls")
R.put(simulate(["td", "fall+"], 2), "simulate-fall-right", "two, falls")
R.put(simulate(["td", "lo"] * 2, 2), "simulate-2", "two steps")


# ----------------------------------------------------- composite gradient
def composite(h, p, th, ap, c):
    """Everything reported about a step, from the pieces (that of the fall
    as reported, which apex-to-touchdown checks against its definition)."""
    Jp, dp, pre, dt, dtth, t = p.s.apex_to_touchdown_gradient(
        arr(h, ap), th)
    Jp, dp, pre, dt = el(h, Jp), el(h, dp), el(h, pre), el(h, dt)
    Jt, dth = td_jac(p, pre, th)
    X1 = Jt.dot(Jp)
    U1 = dth + Jt.dot(dp)
    D, dT = saltation(p, c)
    G = lo_jac(p, c.y[:5])
    lo = lo_map(p, c.y[:5])
    X2, U2 = G.dot(D.dot(X1)), G.dot(D.dot(U1))
    t2 = lo[3] / p.g
    H = np.array([[1, 0, t2, lo[2] / p.g], [0, 1, 0, t2], [0, 0, 1, 0]],
                 dtype=object)
    nx = np.array([lo[0] + lo[2] * t2, lo[1] + lo[3] * t2 / 2, lo[2]],
                  dtype=object)
    return types.SimpleNamespace(
        A=H.dot(X2), B=H.dot(U2), nx=nx, a=dt + dT.dot(X1) + X2[3] / p.g,
        b=dtth + dT.dot(U1) + U2[3] / p.g, t=t + c.tend + t2, Jp=Jp, dp=dp,
        pre=pre, X2=X2, U2=U2, lo=lo)


def gradient(h):
    p = model(h)
    th = angle(h)
    ap = h.reals("ap", 3, -5, 5)
    h.assume(ap[1] - p.l0 * cos(th) > .01)
    with Ivp(h, p, ["lo"]) as iv:
        r = p.s.apex_to_apex_gradient(arr(h, ap), th)
    h.true(len(r) == 12, "twelve results")
    c = iv.calls[0]
    w = composite(h, p, th, ap, c)
    h.eq(c.y0[:5], td_map(p, w.pre, th), "start of the stance phase")
    if r[0] is None:
        h.true(all(q is None for q in r), "all or nothing")
        h.true(w.lo[3] < 0, "an upward liftoff has an apex")
        h.cover("none")
        return
    names = ("A", "B", "nx", "a", "b", "t", "Jp", "dp", "pre", "X2", "U2",
             "lo")
    text = ("gradient in the apex state", "gradient in the angle",
            "next apex", "gradient of the time", "gradient of the time in "
            "the angle", "time", "touchdown gradient", "touchdown gradient "
            "in the angle", "state before touchdown", "liftoff gradient",
            "liftoff gradient in the angle", "state after liftoff")
    for n, tx, got in zip(names, text, r):
        want = np.asarray(getattr(w, n), dtype=object)
        h.eq(el(h, np.asarray(got, dtype=object)).reshape(want.shape), want,
             tx)
    h.cover("some")


R.put(gradient, "apex-to-apex", "one step that lifts off")


# ------------------------------------------------------ linear apex map
def linear(kind, fell=False):
    def f(h):
        sm = loader.module("slip_hybrid_linear_system")
        p = model(h, sm.SlipHybridLinearSystem)
        sysm, p.s = p.s, p.s.slip
        p.mod = sm.spring_loaded_inverted_pendulum
        th = angle(h)
        ap = h.reals("ap", 3, -5, 5)
        _, lo, up, ht = stone(h, p, kind)
        sysm.add_stepping_stone(lo, up, ht)
        h.true(len(sysm.stepping_stones) == 1, "stones")
        st = sysm.stepping_stones[0]
        h.true(AND(st.left == lo, st.right == up, st.height == ht), "stone")
        cl = ap[1] - p.l0 * cos(th) - ht
        h.assume(OR(cl > .01, cl < 0))
        with Ivp(h, p, ["fall-" if fell else "lo"]) as iv:
            r = sysm.apex_map_linear_approximation(arr(h, ap), st, th)
        h.true(len(r) == 8, "eight results")
        touch = p.s.can_touch_stepping_stone(
            arr(h, list(ap) + [0.]), st, th)
        if not iv.calls:
            h.true(all(q is None for q in r), "no map without touchdown")
            h.true(not touch, "touchdown is possible")
            h.cover("missed")
            return
        h.true(touch, "touchdown is impossible")
        hap = ap - np.array([0, ht, 0], dtype=object)
        again = types.SimpleNamespace(y0=None)

        def same(fun, span, y0, **k):
            h.eq(el(h, y0), iv.calls[0].y0, "start of the stance phase")
            return iv.calls[0].sol
        p.mod.solve_ivp, keep = same, p.mod.solve_ivp
        try:
            w = p.s.apex_to_apex_gradient(arr(h, hap), th)
        finally:
            p.mod.solve_ivp = keep
        if w[0] is None:
            h.true(all(q is None for q in r), "no map without a next apex")
            h.cover("fell")
            return
        A, B, nx, a, b, t, Jp, dp, pre, X2, U2, lof = [el(
            h, np.asarray(q, dtype=object)) for q in w]
        B, U2, b, t = B.reshape(-1), U2.reshape(-1), b.reshape(-1)[0], \
            t.reshape(-1)[0]
        # value at any point = value at the reference + gradient * change
        z, u = h.reals("z", 3, -5, 5), h.real("u", -2, 2)
        dz, du = z - ap, u - th
        gA, gB, gc, ga, gb, gct, P, q = [el(
            h, np.asarray(v, dtype=object)) for v in r]
        up0 = np.array([0, ht, 0], dtype=object)
        h.eq(gA.dot(z) + gB.reshape(-1) * u + gc.reshape(-1),
             nx + up0 + A.dot(dz) + B * du, "linear apex map")
        h.eq(ga.reshape(-1).dot(z) + gb.reshape(-1)[0] * u +
             gct.reshape(-1)[0], t + a.dot(dz) + b * du, "linear time")
        S, C = sin(th), cos(th)
        want = [cl + dz[1] + p.l0 * S * du,
                lof[3] + X2[3].dot(dz) + U2[3] * du]
        foot = pre[0] + p.l0 * S + Jp[0].dot(dz) + (dp[0] + p.l0 * C) * du
        if lo != -np.inf:
            want.append(foot - lo)
        if up != np.inf:
            want.append(up - foot)
        h.true(P.shape == (len(want), 4) and q.size == len(want),
               "number of constraints")
        zu = np.concatenate((z, [u]))
        for i, e in enumerate(want):
            h.eq(q.reshape(-1)[i] - P[i].dot(zu), e, "constraint %d" % i)
        h.cover("mapped")
    return f


for k_ in ("both", "line", "left", "right"):
    R.put(linear(k_), "linear-map-" + k_, "stone with ends: " + k_)
R.put(linear("both", True), "linear-map-fall", "a step that falls")
