"""Simulator samples, rollouts and datasets."""
import types

import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import Rand, AND, IMPLIES, where, vmin, vmax, absv

HARNESSES = R = Registry()
BOUNDS = ("Simulator stand-in: the state is affine in the time since the "
          "reset with symbolic rates, an image is an affine function of the "
          "state and of hidden simulator time; 2x2 images, 1 or 2 joints or "
          "a floating base, up to 3 steps and 2 rollouts, 5 step sizes.")
ASSUMPTIONS = ["the pybullet engine is replaced by a deterministic stand-in "
               "that records what it is asked for",
               "images are square (the code transposes a height by width "
               "image into a width by height buffer)"]
W = 2
DTS = [1. / 60, .05, .1, 3. / 120, 1. / 120]


class PB:
    """Records calls; the state moves affinely with simulated time."""
    GUI, DIRECT, VELOCITY_CONTROL = 1, 2, 3

    def __init__(self, h, nj):
        self.h = h
        self.nj = nj
        self.n = 2 * nj if nj else 12
        self.rate = h.reals("rate", self.n, -1, 1)
        self.hid = h.reals("hid", self.n, 0.5, 1)
        self.ts = None
        self.phase = 0.
        self.base = 0.
        self.x = np.zeros(self.n, dtype=object)
        self.motors = set()
        self.saved = None
        self.log = []
        self.pix = h.reals("pix", (W, W, 3), 90, 110)
        self.gain = [[3 * c + 2 * i + j + 1 for j in range(W)]
                     for c in range(3) for i in range(W)]

    # state and image as functions of the history
    def state_after(self, x0, t, phase0=0.):
        return np.array([x0[k] + t * self.rate[k] + phase0 * self.hid[k]
                         for k in range(self.n)], dtype=object)

    def image(self, x):
        o = np.empty((W, W, 4), dtype=object)
        s = 0
        for k in range(self.n):
            s = s + x[k] * ((k % 3) + 1) * .25
        for i in range(W):
            for j in range(W):
                for c in range(3):
                    p = self.pix[i, j, c] + s * (1 + c + 2 * i + j) * .5
                    if not self.h.symbolic:
                        p = float(np.round(p))
                    o[i, j, c] = p
                o[i, j, 3] = 255.
        return o

    def now(self):
        return self.state_after(self.x, self.phase - self.base, self.base)

    # the interface
    def connect(self, mode):
        return 7

    def disconnect(self, c):
        pass

    def setGravity(self, *a):
        pass

    def setPhysicsEngineParameter(self, **k):
        pass

    def setTimeStep(self, t):
        self.ts = t

    def computeViewMatrix(self, **k):
        return "view"

    def computeProjectionMatrixFOV(self, **k):
        return "projection"

    def getNumJoints(self, r):
        return self.nj

    def setJointMotorControl2(self, r, i, mode, force):
        self.motors.add((i, mode, force))

    def stepSimulation(self):
        self.phase = self.phase + self.ts

    def saveState(self):
        return 3

    def restoreState(self, i):
        if i == 3:
            self.phase = 0.
            self.base = 0.

    def _set(self, k, v):
        # everything not set keeps its current value
        cur = self.now()
        self.base = self.phase
        self.x = cur - np.array([self.base * q for q in self.hid],
                                dtype=object)
        for i, q in zip(k, v):
            self.x[i] = q

    def _l(self, v):
        return list(self.h.elems(v).reshape(-1))

    def resetJointState(self, r, i, q, v=0.):
        self._set([i, self.nj + i], self._l(q) + self._l(v))

    def getQuaternionFromEuler(self, e):
        return tuple(self._l(e)) + (0., )

    def getEulerFromQuaternion(self, q):
        return tuple(q[:3])

    def resetBasePositionAndOrientation(self, r, p, o):
        self._set(range(6), self._l(p) + self._l(o)[:3])

    def resetBaseVelocity(self, r, v, w):
        self._set(range(6, 12), self._l(v) + self._l(w))

    def getJointStates(self, r, idx):
        s = self.now()
        return [(s[i], s[self.nj + i], (0., ) * 6, 0.) for i in idx]

    def getJointState(self, r, i):
        return self.getJointStates(r, [i])[0]

    def getBasePositionAndOrientation(self, r):
        s = self.now()
        return tuple(s[:3]), tuple(s[3:6]) + (0., )

    def getBaseVelocity(self, r):
        s = self.now()
        return tuple(s[6:9]), tuple(s[9:12])

    def getCameraImage(self, width, height, viewMatrix, projectionMatrix,
                       **k):
        self.h.true(AND(width == W, height == W, viewMatrix == "view",
                        projectionMatrix == "projection"), "camera setup")
        o = self.image(self.now())
        if self.h.symbolic:
            return width, height, self.h.nparray(o), None, None
        return width, height, o.astype(np.uint8), None, None


def make(h, nj, gray):
    m = loader.module("pybullet_data_generation")
    pb = PB(h, nj)
    m.pb = pb
    g = m.PybulletSampleGenerator(lambda p: 0, nj > 0, W, W, gray)
    h.true(g.x_dim == pb.n, "state dimension")
    if nj:
        h.true(all((i, PB.VELOCITY_CONTROL, 0) in pb.motors
                   for i in range(nj)), "joints move freely")
    return m, pb, g


def pixels(pb, x, gray):
    """Normalised channels of the image at x."""
    o = pb.image(x)
    out = np.empty((1 if gray else 3, W, W), dtype=object)
    for i in range(W):
        for j in range(W):
            c = [o[i, j, k] for k in range(3)]
            if gray:
                out[0, i, j] = (.2989 * c[0] + .587 * c[1] + .114 * c[2]
                                ) / 255.
            else:
                for k in range(3):
                    out[k, i, j] = c[k] / 255.
    return out


def sample(nj, gray):
    def f(h):
        m, pb, g = make(h, nj, gray)
        dt = DTS[h.choice("dt", len(DTS))]
        x0 = h.tensor("x", pb.n, -1, 1)
        # a previous sample must leave no trace
        g.generate_sample(h.tensor("y", pb.n, -1, 1), .05)
        x1, X, Xn = g.generate_sample(x0, dt)
        c = 1 if gray else 3
        h.true(tuple(X.shape) == (2 * c, W, W), "shape of the pair")
        h.true(tuple(Xn.shape) == (c, W, W), "shape of the next image")
        xe = h.elems(x0)
        h.eq(x1, pb.state_after(xe, dt), "state one step later")
        h.eq(X[:c], pixels(pb, xe, gray), "first image at the start")
        h.eq(X[c:], pixels(pb, pb.state_after(xe, dt / 2), gray),
             "second image half a step later")
        h.eq(Xn, pixels(pb, pb.state_after(xe, dt), gray),
             "next image one step later")
        h.ge(X, 0., "at least zero")
        h.le(X, 1., "at most one")
        h.cover("sampled")
    return f


def check_rollout(h, pb, xe, dt, N, gray, rx, rX, tag=""):
    """Returns the trajectory."""
    c = 1 if gray else 3
    h.true(tuple(rx.shape) == (N + 1, pb.n), tag + "number of states")
    h.true(tuple(rX.shape) == (N + 2, c, W, W), tag + "number of images")
    tr = [xe]
    for k in range(N):
        tr.append(pb.state_after(tr[-1], dt))
    ims = [pixels(pb, tr[0], gray),
           pixels(pb, pb.state_after(tr[0], dt / 2), gray)]
    ims += [pixels(pb, tr[k + 1], gray) for k in range(N)]
    for k in range(N + 1):
        h.eq(rx[k], tr[k], tag + "state %d" % k)
    for k in range(N + 2):
        h.eq(rX[k], ims[k], tag + "image %d" % k)
    return tr, ims


def rollout(nj, gray, N):
    def f(h):
        m, pb, g = make(h, nj, gray)
        x0 = h.tensor("x", pb.n, -1, 1)
        rx, rX = g.generate_rollout(x0, .05, N)
        check_rollout(h, pb, h.elems(x0), .05, N, gray, rx, rX)
        h.cover("rolled out")
    return f


def regroup(nj, gray, N, n0):
    def f(h):
        m, pb, g = make(h, nj, gray)
        x = h.tensor("x", (n0, pb.n), -1, 1)
        xs, Xs = g.data_to_rollouts(x, .05, N)
        h.true(len(xs) == n0 and len(Xs) == n0, "one rollout each")
        for k in range(n0):
            check_rollout(h, pb, h.elems(x)[k], .05, N, gray, xs[k], Xs[k],
                          "rollout %d " % k)
        h.cover("regrouped")
    return f


def dataset(nj, gray, N, nr, normal):
    def f(h):
        m, pb, g = make(h, nj, gray)
        n = pb.n
        lo = h.tensor("lo", n, -1, 0)
        up = h.tensor("up", n, 0, 1)
        kw = {}
        if normal:
            kw["x_mean"] = h.tensor("mean", n, -.5, .5)
            kw["x_std"] = h.const(torch.full((n, ), .5, dtype=torch.float64))
        with Rand(h) as rand:
            xd, xn, Xd, Xn = g.generate_dataset(lo, up, .05, N, nr, **kw)
        c = 1 if gray else 3
        h.true(tuple(xd.shape) == (N * nr, n), "number of states")
        h.true(tuple(xn.shape) == (N * nr, n), "number of next states")
        h.true(tuple(Xd.shape) == (N * nr, 2 * c, W, W), "number of pairs")
        h.true(tuple(Xn.shape) == (N * nr, c, W, W), "number of next images")
        x = h.elems(xd)
        L, U = h.elems(lo), h.elems(up)
        draws = [v for a in rand.log for v in a.reshape(-1)]
        h.true(len(draws) == nr * n, "one random number for each entry")
        for r in range(nr):
            x0 = x[r * N]
            h.ge(x0, L, "start in range")
            h.le(x0, U, "start in range")
            d = draws[r * n:(r + 1) * n]
            for k in range(n):
                if normal:
                    w = d[k] * .5 + h.elems(kw["x_mean"])[k]
                    w = vmax(vmin(w, U[k]), L[k])
                else:
                    w = d[k] * (U[k] - L[k]) + L[k]
                h.eq(x0[k], w, "distribution of the start")
            tr, ims = [x0], []
            for k in range(N):
                tr.append(pb.state_after(tr[-1], .05))
            ims = [pixels(pb, tr[0], gray),
                   pixels(pb, pb.state_after(tr[0], .025), gray)]
            ims += [pixels(pb, tr[k + 1], gray) for k in range(N)]
            for k in range(N):
                row = r * N + k
                h.eq(xd[row], tr[k], "state of row")
                h.eq(xn[row], tr[k + 1], "next state of row")
                h.eq(Xd[row, :c], ims[k], "first image of row")
                h.eq(Xd[row, c:], ims[k + 1], "second image of row")
                h.eq(Xn[row], ims[k + 2], "next image of row")
        h.cover("dataset")
    return f


def noise(h):
    m = loader.module("pybullet_data_generation")
    x = h.tensor("x", (2, 2), -1, 1)
    p = h.tensor("p", 2, 0, 1)
    x_before = h.elems(x).copy()
    with Rand(h) as rand:
        y = m.add_noise(x, p)
    e = rand.log[0]
    h.eq(x, x_before, "data left as they were")
    X = h.elems(x)
    P = h.elems(p)
    for i in range(2):
        for j in range(2):
            mean = (absv(X[0, j]) + absv(X[1, j])) / 2
            h.eq(y[i, j], X[i, j] + e[i, j] * P[j] * mean, "noise added")
    h.cover("noise")


class Loader:
    """Collects what the loader is built from."""
    def __init__(self, ds, batch_size=1, shuffle=False, **k):
        self.ds, self.batch_size, self.shuffle = ds, batch_size, shuffle


def pairing(h):
    m = loader.module("pybullet_data_generation")
    x = h.tensor("x", (3, 2), -1, 1)
    y = h.tensor("y", (3, 1), -1, 1)
    save = m.DataLoader
    m.DataLoader = Loader
    try:
        d = m.get_dataloader(x, y, 2)
    finally:
        m.DataLoader = save
    h.true(AND(d.batch_size == 2, bool(d.shuffle), len(d.ds) == 3),
           "batch size, shuffling and size")
    for k in range(3):
        a, b = d.ds[k]
        h.eq(a, x[k], "input %d" % k)
        h.eq(b, y[k], "output %d" % k)
    h.cover("pairs")


for nj in (1, 2, 0):
    for gray in (False, True):
        g = "%s_%s" % ("joints%d" % nj if nj else "base",
                       "gray" if gray else "rgb")
        R.put(sample(nj, gray), "sample_" + g, "1 sample after another one")
        R.put(rollout(nj, gray, 2), "rollout_" + g, "2 steps")
R.put(rollout(1, True, 1), "rollout_1", "1 step")
R.put(rollout(1, True, 4), "rollout_4", "4 steps")
R.put(regroup(1, False, 2, 3), "regroup", "3 starts, 2 steps")
R.put(regroup(2, True, 1, 2), "regroup_j2", "2 starts, 1 step")
for normal in (False, True):
    t = "normal" if normal else "uniform"
    R.put(dataset(1, False, 2, 2, normal), "dataset_" + t,
          "2 rollouts of 2 steps")
    R.put(dataset(1, True, 1, 3, normal), "dataset_n1_" + t,
          "3 rollouts of 1 step")
    R.put(dataset(1, True, 3, 1, normal), "dataset_n3_" + t,
          "1 rollout of 3 steps")
    R.put(dataset(0, True, 2, 1, normal), "dataset_base_" + t,
          "1 rollout of 2 steps", tier="thorough")
R.put(noise, "noise", "2 by 2 data")
R.put(pairing, "pairing", "3 rows")
