"""Rotation matrices."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import sin, cos

HARNESSES = R = Registry()
BOUNDS = "Angles are unbounded reals; sin/cos are any pair on the unit circle."
ASSUMPTIONS = ["real arithmetic for float64",
               "sin and cos of one angle are constrained only by sin^2+cos^2=1"]


def ref(h, a):
    r, p, y = [h.elems(a)[i] for i in range(3)]
    z, o = 0., 1.
    X = np.array([[o, z, z], [z, cos(r), -sin(r)], [z, sin(r), cos(r)]],
                 dtype=object)
    Y = np.array([[cos(p), z, sin(p)], [z, o, z], [-sin(p), z, cos(p)]],
                 dtype=object)
    Z = np.array([[cos(y), -sin(y), z], [sin(y), cos(y), z], [z, z, o]],
                 dtype=object)
    return X, Y, Z


def dref(h, a):
    r, p, y = [h.elems(a)[i] for i in range(3)]
    z = 0.
    X = np.array([[z, z, z], [z, -sin(r), -cos(r)], [z, cos(r), -sin(r)]],
                 dtype=object)
    Y = np.array([[-sin(p), z, cos(p)], [z, z, z], [-cos(p), z, -sin(p)]],
                 dtype=object)
    Z = np.array([[-sin(y), -cos(y), z], [cos(y), -sin(y), z], [z, z, z]],
                 dtype=object)
    return X, Y, Z


def mk(tensor):
    def ang(h):
        return h.tensor("rpy", 3, -4, 4) if tensor else h.array(
            "rpy", 3, -4, 4)

    def value(h):
        g = loader.module("geometry_transform")
        a = ang(h)
        X, Y, Z = ref(h, a)
        M = g.rpy2rotmat(a)
        m = h.elems(M)
        h.eq(m, Z.dot(Y).dot(X), "product of elementary rotations")
        h.eq(m.dot(m.T), np.eye(3), "orthogonal")
        det = (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1])
               - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
               + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
        h.eq(det, 1., "determinant one")
        h.true(isinstance(M, torch.Tensor) == tensor, "type follows input")
        h.cover("value")

    def grad(h):
        g = loader.module("geometry_transform")
        a = ang(h)
        X, Y, Z = ref(h, a)
        dX, dY, dZ = dref(h, a)
        d = g.rpy2rotmat_gradient(a)
        h.true(len(d) == 3, "three gradients")
        h.eq(d[0], Z.dot(Y).dot(dX), "derivative in roll")
        h.eq(d[1], Z.dot(dY).dot(X), "derivative in pitch")
        h.eq(d[2], dZ.dot(Y).dot(X), "derivative in yaw")
        h.cover("gradient")

    def auto(h):
        # derivative reported against the autograd derivative of the value
        g = loader.module("geometry_transform")
        a = h.tensor("rpy", 3, -4, 4)
        a.requires_grad_(True)
        M = g.rpy2rotmat(a)
        d = g.rpy2rotmat_gradient(a)
        for i in range(3):
            for j in range(3):
                gr = torch.autograd.grad(M[i, j], a, retain_graph=True,
                                         allow_unused=True)[0]
                if gr is None:
                    gr = torch.zeros(3, dtype=torch.float64)
                h.eq([d[k][i, j] for k in range(3)], gr,
                     "gradient of entry %d,%d" % (i, j))
    return value, grad, auto


b = "all angles in [-4,4] (any point of the unit circle)"
for t in (False, True):
    v, g, a = mk(t)
    R.put(v, "value_" + ("torch" if t else "numpy"), b)
    R.put(g, "gradient_" + ("torch" if t else "numpy"), b)
R.put(a, "gradient_vs_autograd", b)
