"""Example plants."""
import math

import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import AND, OR, near, sin, cos, F64, tt

HARNESSES = R = Registry()
BOUNDS = ("States and controls symbolic in [-3,3] (angles: any point of the "
          "unit circle, pitch away from +-pi/2), physical parameters "
          "fixed at two sets of values each.")
ASSUMPTIONS = ["real arithmetic for float64",
               "sin and cos of one angle are constrained only by "
               "sin^2+cos^2=1 (exact values at multiples of pi/2)"]
EX = "examples."


def seti(o, k):
    """Second set of parameters: values that are not one or equal."""
    if k:
        for n, v in k.items():
            setattr(o, n, v)
    return o


# ---- equations of motion, written from the documented models
def rocket(p, x, u):
    s, c = sin(x[2]), cos(x[2])
    fx, fy = u[0], u[1]
    return [x[3], x[4], x[5], (fx * c - fy * s) / p.mass,
            (fx * s + fy * c) / p.mass - p.gravity,
            fx * p.length * .5 / p.inertia]


def rocket2(p, x, u):
    # bottom = centre - length/2 * (-sin, cos)
    s, c, w = sin(x[2]), cos(x[2]), x[5]
    d = rocket(p, x, u)
    a = d[5]
    ddx = a * c - w * w * s     # second derivative of sin
    ddz = -a * s - w * w * c    # of cos
    return [x[3], x[4], w, d[3] + p.length * .5 * ddx,
            d[4] - p.length * .5 * ddz, a]


def pendulum(p, x, u):
    ml2 = p.mass * p.length**2
    return [x[1], (u[0] - p.damping * x[1] -
                   p.mass * p.gravity * p.length * sin(x[0])) / ml2]


def quad2(p, x, u):
    t = u[0] + u[1]
    return [x[3], x[4], x[5], -sin(x[2]) * t / p.mass,
            cos(x[2]) * t / p.mass - p.gravity,
            p.length * (u[0] - u[1]) / p.inertia]


def unicycle(p, x, u):
    return [u[0] * cos(x[2]), u[0] * sin(x[2]), u[1]]


def accar(p, x, u):
    return [x[3] * cos(x[2]), x[3] * sin(x[2]), u[0], u[1]]


def quad3(p, x, u):
    r, q, y = x[3], x[4], x[5]
    sr, cr, sp, cp, sy, cy = (sin(r), cos(r), sin(q), cos(q), sin(y), cos(y))
    T = u[0] + u[1] + u[2] + u[3]
    kz = p.z_torque_to_force_factor
    L = p.arm_length
    tau = [L * (u[1] - u[3]), L * (u[2] - u[0]),
           kz * (u[0] - u[1] + u[2] - u[3])]
    zaxis = [cy * sp * cr + sy * sr, sy * sp * cr - cy * sr, cp * cr]
    acc = [zaxis[0] * T / p.mass, zaxis[1] * T / p.mass,
           zaxis[2] * T / p.mass - p.gravity]
    w = x[9:12]
    inertia = [float(v) for v in np.asarray(p.inertia)]
    wd = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        wd.append((tau[i] + (inertia[j] - inertia[k]) * w[j] * w[k]
                   ) / inertia[i])
    rate = [w[0] + (sr * w[1] + cr * w[2]) * sp / cp,
            cr * w[1] - sr * w[2], (sr * w[1] + cr * w[2]) / cp]
    return [x[6], x[7], x[8]] + rate + acc + wd


def state(h, n, nu, kind, pitch=None):
    mk = h.tensor if kind == "torch" else h.array
    x, u = mk("x", n, -3, 3), mk("u", nu, -3, 3)
    if pitch is not None:
        h.assume(cos(h.elems(x)[pitch]) >= .01)
    return x, u


def eom(mod, cls, ref, n, nu, args=(), params=None, pitch=None, both=True):
    """Array and tensor dynamics against the equations of motion."""
    def f(h):
        m = loader.module(EX + mod)
        p = seti(getattr(m, cls)(*args), params)
        x, u = state(h, n, nu, "numpy", pitch)
        X, U = h.elems(x), h.elems(u)
        want = ref(p, X, U)
        a = p.dynamics(x, u)
        h.true(isinstance(a, np.ndarray), "array out")
        h.eq(a, want, "array dynamics")
        if not both:
            h.cover("dynamics")
            return
        t = p.dynamics(h.as_tensor(X), h.as_tensor(U))
        h.true(isinstance(t, torch.Tensor) and t.dtype == F64, "tensor out")
        h.eq(t, want, "tensor dynamics")
        h.eq(x, X, "state unchanged")
        h.cover("dynamics")
    return f


def jac(h, p, x, u, n, nu):
    """Derivatives of the tensor dynamics."""
    x = x.clone().requires_grad_(True)
    u = u.clone().requires_grad_(True)
    d = p.dynamics(x, u)
    A, B = [], []
    for i in range(n):
        g = torch.autograd.grad(d[i], (x, u), retain_graph=True,
                                allow_unused=True)
        A.append(h.elems(g[0]) if g[0] is not None else np.zeros(n))
        B.append(h.elems(g[1]) if g[1] is not None else np.zeros(nu))
    return (np.array([list(r) for r in A], dtype=object),
            np.array([list(r) for r in B], dtype=object))


def jacobian(mod, cls, n, nu, fun, kinds, args=(), params=None, pitch=None,
             call=None):
    def f(h):
        m = loader.module(EX + mod)
        p = seti(getattr(m, cls)(*args), params)
        x, u = state(h, n, nu, "torch", pitch)
        A, B = jac(h, p, x, u, n, nu)
        for kind in kinds:
            if kind == "torch":
                xx, uu = x, u
            else:
                xx, uu = h.nparray(x), h.nparray(u)
            r = call(p, xx, uu) if call else getattr(p, fun)(xx, uu)
            h.true(len(r) == 2, "two matrices")
            h.true(tuple(r[0].shape) == (n, n) and
                   tuple(r[1].shape) == (n, nu), "shapes")
            h.eq(r[0], A, kind + " state Jacobian")
            h.eq(r[1], B, kind + " control Jacobian")
        h.cover("jacobian")
    return f


def equilibria(h):
    rk = loader.module(EX + "rocket.rocket")
    for c in (rk.Rocket, rk.Rocket2):
        p = c()
        u = np.array([0., p.hover_thrust])
        h.eq(p.dynamics(np.zeros(6), u), np.zeros(6), "rocket")
        h.eq(p.dynamics(torch.zeros(6, dtype=F64), tt(u)), np.zeros(6),
             "rocket, tensor")
    q2 = loader.module(EX + "quadrotor2d.quadrotor_2d")
    p = q2.Quadrotor2D(F64)
    # hover at every position
    pos = h.reals("pos", 2)
    x = np.array([pos[0], pos[1], 0., 0., 0., 0.], dtype=object)
    h.eq(p.dynamics(h.as_tensor(x), p.u_equilibrium), np.zeros(6), "planar")
    q3 = loader.module(EX + "quadrotor3d.quadrotor")
    p = q3.Quadrotor(F64)
    yaw = h.real("yaw", -3, 3)
    x = np.array([pos[0], pos[1], 1., 0., 0., yaw] + [0.] * 6, dtype=object)
    u = torch.full((4, ), p.hover_thrust, dtype=F64)
    h.eq(p.dynamics(h.as_tensor(x), u), np.zeros(12), "spatial")
    pd = loader.module(EX + "pendulum.pendulum")
    p = pd.Pendulum(F64)
    h.eq(p.dynamics(np.array([np.pi, 0.]), np.array([0.])), np.zeros(2),
         "pendulum")
    un = loader.module(EX + "car.unicycle")
    xx = h.tensor("xx", 3, -3, 3)
    h.eq(un.Unicycle(F64).dynamics(xx, torch.zeros(2, dtype=F64)),
         np.zeros(3), "unicycle")
    h.cover("equilibria")


def energy(h):
    """Pendulum energies; without damping or control energy is conserved."""
    pd = loader.module(EX + "pendulum.pendulum")
    p = seti(pd.Pendulum(F64), dict(mass=.75, length=.5, damping=.25))
    x = h.array("x", 2, -3, 3)
    u = h.array("u", 1, -3, 3)
    X, U = h.elems(x), h.elems(u)
    pe, ke = p.potential_energy(x), p.kinetic_energy(x)
    h.eq(pe, -p.mass * p.gravity * p.length * cos(X[0]), "potential")
    h.eq(ke, .5 * p.mass * p.length**2 * X[1] * X[1], "kinetic")
    t = h.as_tensor(X).clone().requires_grad_(True)
    E = p.potential_energy(t) + p.kinetic_energy(t)
    h.eq(h.elems(E), h.elems(pe) + h.elems(ke), "tensor energy")
    dE = h.elems(torch.autograd.grad(E, t)[0])
    d = h.elems(p.dynamics(x, u))
    h.eq(dE[0] * d[0] + dE[1] * d[1], X[1] * U[0] - p.damping * X[1] * X[1],
         "power balance")
    # energy shaping pumps energy towards the desired value
    xd = np.array([np.pi, 0.])
    g = h.real("gain", 0, 2)
    uu = h.elems(p.energy_shaping_control(x, xd, g)).reshape(-1)
    Ed = p.mass * p.gravity * p.length
    err = h.elems(pe) + h.elems(ke) - Ed
    h.le(X[1] * uu[0] * err, 0., "energy error never pumped up")
    h.cover("energy")


def accar_tensor(h):
    m = loader.module(EX + "car.acceleration_car")
    p = m.AccelerationCar(F64)
    x, u = state(h, 4, 2, "torch")
    try:
        t = p.dynamics(x, u)
    except RuntimeError as e:
        if "zero-dimensional" not in str(e):
            raise
        h.fail("tensor state refused: zero-dimensional tensors concatenated")
    h.eq(t, accar(p, h.elems(x), h.elems(u)), "tensor dynamics")
    h.cover("dynamics")


def pole(pos, exact=False):
    """Against Newton's law of the two bodies with a tension along the pole:
    accelerations of the tip and the tension are free, the force and the
    velocities follow."""
    def f(h):
        m = loader.module(EX + "pole.pole")
        x, y, z, L = pos
        mb, ma = .25, .5
        p = m.Pole(mb, ma, L)
        v = h.reals("v", 5, -2, 2)
        dd = h.reals("dd", 2, -2, 2)
        ten = h.real("tension", -3, 3)
        zd = -(x * v[3] + y * v[4]) / z
        zdd = -(v[3] * v[3] + v[4] * v[4] + x * dd[0] + y * dd[1] +
                zd * zd) / z
        r = [x, y, z]
        rdd = [dd[0], dd[1], zdd]
        g = p.gravity
        e = [0., 0., 1.]
        ab = [ten * r[i] / mb - g * e[i] for i in range(3)]
        aa = [ab[i] - rdd[i] for i in range(3)]
        u = [ma * (aa[i] + g * e[i]) + ten * r[i] for i in range(3)]
        st = np.array([x, y] + list(v), dtype=object)
        us = np.array(u, dtype=object)
        want = [v[3], v[4]] + aa + [dd[0], dd[1]]
        # the recorded finding is a sign of the cross term of the vertical
        # equation, which acts like this force
        cross = np.array([0, 0, -4 * mb * x * y * v[3] * v[4] / z**3],
                         dtype=object)
        for name, conv in (("array", h.nparray), ("tensor", h.as_tensor)):
            d = h.elems(p.dynamics(conv(st), conv(us)))
            if exact:
                h.eq(d, want, "%s dynamics: cross term of the vertical "
                     "equation" % name, tol=1e-5)
                continue
            d2 = h.elems(p.dynamics(conv(st), conv(us - cross)))
            h.true(OR(AND([near(a, b, 1e-5) for a, b in zip(d, want)]),
                      AND([near(a, b, 1e-5) for a, b in zip(d2, want)])),
                   "%s dynamics up to the cross term" % name)
        h.cover("pole")
    return f


PEN = dict(mass=.75, length=.5, damping=.25)
ROC = dict(mass=.75, length=.5, inertia=.125, gravity=4.)
QUA = dict(mass=.75, arm_length=.5, gravity=4., z_torque_to_force_factor=.25,
           inertia=np.array([.125, .25, .5]))
for tag, k in (("", None), ("_p2", 1)):
    r = ROC if k else None
    R.put(eom("rocket.rocket", "Rocket", rocket, 6, 2, (), r),
          "rocket" + tag, "all states and controls in [-3,3]")
    R.put(eom("rocket.rocket", "Rocket2", rocket2, 6, 2, (), r),
          "rocket2" + tag, "all states and controls in [-3,3]")
    R.put(eom("pendulum.pendulum", "Pendulum", pendulum, 2, 1, (F64, ),
              PEN if k else None), "pendulum" + tag, "all in [-3,3]")
    R.put(eom("quadrotor2d.quadrotor_2d", "Quadrotor2D", quad2, 6, 2,
              (F64, ), r), "quadrotor2d" + tag, "all in [-3,3]")
    R.put(eom("quadrotor3d.quadrotor", "Quadrotor", quad3, 12, 4, (F64, ),
              QUA if k else None, pitch=4), "quadrotor3d" + tag,
          "all in [-3,3], cos(pitch) >= 0.01")
    for c in ("Rocket", "Rocket2"):
        R.put(jacobian("rocket.rocket", c, 6, 2, "linearized_dynamics",
                       ("numpy", ), (), r), "jac_%s%s" % (c.lower(), tag))
    R.put(jacobian("quadrotor2d.quadrotor_2d", "Quadrotor2D", 6, 2,
                   "linearized_dynamics", ("numpy", "torch"), (F64, ), r),
          "jac_quadrotor2d" + tag)
    R.put(jacobian("quadrotor3d.quadrotor", "Quadrotor", 12, 4,
                   "dynamics_gradient", ("numpy", ), (F64, ),
                   QUA if k else None, pitch=4), "jac_quadrotor3d" + tag)
    R.put(jacobian("pendulum.pendulum", "Pendulum", 2, 1, None, ("torch", ),
                   (F64, ), PEN if k else None,
                   call=lambda p, x, u: p.dynamics_gradient(x)),
          "jac_pendulum" + tag)
R.put(eom("car.unicycle", "Unicycle", unicycle, 3, 2, (F64, )), "unicycle")
R.put(eom("car.acceleration_car", "AccelerationCar", accar, 4, 2, (F64, ),
          both=False), "acceleration_car")
R.put(accar_tensor, "acceleration_car_tensor")
R.put(jacobian("car.unicycle", "Unicycle", 3, 2, "dynamics_gradient",
               ("numpy", "torch"), (F64, )), "jac_unicycle")
R.put(equilibria, "equilibria", "all positions and headings")
R.put(energy, "energy", "all states, controls and gains")
for i, q in enumerate([(.25, .5, .5, .75), (-.5, .25, .5, .75),
                       (0., 0., 1., 1.), (.375, .75, -.75 + 1.5, 1.125),
                       (.25, -.5, .5, .75)]):
    R.put(pole(q), "pole_%d" % i, "pole direction %s, all velocities, "
          "accelerations and tensions" % (q, ))
R.put(pole((.25, .5, .5, .75), True), "pole_cross_term",
      "all velocities, accelerations and tensions")
