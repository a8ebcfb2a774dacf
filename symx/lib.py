"""Helpers shared by harnesses; every one works on solver terms and floats."""
import math

import numpy as np
import torch

from symx import num, loader
from symx.num import SR, SB, ite

F64 = torch.float64


def _v1(name, f):
    def g(x):
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return g(x.item())
            o = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                o[i] = g(x[i])
            return o if any(isinstance(v, SR) for v in o.reshape(-1)) else \
                o.astype(float)
        if isinstance(x, SR):
            return getattr(x, name)()
        return f(float(x))
    return g


sin = _v1("sin", math.sin)
cos = _v1("cos", math.cos)
sqrt = _v1("sqrt", math.sqrt)
exp = _v1("exp", math.exp)
log = _v1("log", math.log)
tanh = _v1("tanh", math.tanh)
absv = _v1("__abs__", abs)


def where(c, a, b):
    if isinstance(c, SB):
        return ite(c, a, b)
    return a if c else b


def _max2(a, b):
    if isinstance(a, SR) or isinstance(b, SR):
        return num.smax(a, b)
    return a if a >= b else b


def _min2(a, b):
    if isinstance(a, SR) or isinstance(b, SR):
        return num.smin(a, b)
    return a if a <= b else b


def vmax(*xs):
    """max of scalars or, elementwise, of arrays."""
    if len(xs) == 1:
        xs = list(np.asarray(xs[0], dtype=object).reshape(-1))
    r = xs[0]
    for x in xs[1:]:
        r = _bin(_max2, r, x)
    return r


def vmin(*xs):
    if len(xs) == 1:
        xs = list(np.asarray(xs[0], dtype=object).reshape(-1))
    r = xs[0]
    for x in xs[1:]:
        r = _bin(_min2, r, x)
    return r


def _bin(f, a, b):
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return f(a, b)
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object),
                               np.asarray(b, dtype=object))
    o = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        o[i] = f(A[i], B[i])
    return o


def AND(*cs):
    r = True
    for c in flat(cs):
        r = num.band(r, c)
    return r


def OR(*cs):
    r = False
    for c in flat(cs):
        r = num.bor(r, c)
    return r


def NOT(c):
    return num.bnot(c) if isinstance(c, SB) else not c


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return AND(OR(NOT(a), b), OR(a, NOT(b)))


def flat(cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            out += flat(c)
        elif isinstance(c, np.ndarray):
            out += flat(list(c.reshape(-1)))
        elif isinstance(c, np.bool_):
            out.append(bool(c))
        else:
            out.append(c)
    return out


def near(a, b, tol=1e-6):
    d = a - b
    return AND(d <= tol, d >= -tol)


def rnd(seed, shape, lo=-1., hi=1., q=8):
    """Reproducible numbers with denominator q."""
    r = np.random.RandomState(seed)
    n = int(np.prod(shape)) if not isinstance(shape, int) else shape
    v = r.randint(int(lo * q), int(hi * q) + 1, size=n) / q
    return v.reshape(shape)


def tt(a):
    return torch.tensor(np.asarray(a, dtype=float), dtype=F64)


def mknet(widths, seed=0, slope=0.1, bias=True, last_relu=False, q=8,
          scale=1., params=None):
    """Sequential of Linear and (Leaky)ReLU layers with fixed rational
    weights; slope None or 0 gives ReLU."""
    r = np.random.RandomState(seed)
    layers = []
    for i in range(len(widths) - 1):
        lin = torch.nn.Linear(widths[i], widths[i + 1], bias=bias, dtype=F64)
        w = r.randint(-q, q + 1, size=(widths[i + 1], widths[i])) / q * scale
        b = r.randint(-q, q + 1, size=(widths[i + 1], )) / q * scale
        lin.weight = torch.nn.Parameter(tt(w))
        if bias:
            lin.bias = torch.nn.Parameter(tt(b))
        layers.append(lin)
        if i < len(widths) - 2 or last_relu:
            layers.append(torch.nn.ReLU() if not slope
                          else torch.nn.LeakyReLU(slope))
    return torch.nn.Sequential(*layers)


def netfun(net, x):
    """Reference evaluation of a Sequential network on an object or float
    vector, one input."""
    z = np.asarray(x, dtype=object)
    for l in net:
        if isinstance(l, torch.nn.Linear):
            W = pnp(l.weight)
            z = W.dot(z)
            if l.bias is not None:
                z = z + pnp(l.bias)
        elif isinstance(l, torch.nn.LeakyReLU):
            z = np.array([where(v >= 0, v, v * l.negative_slope) for v in z],
                         dtype=object)
        elif isinstance(l, torch.nn.ReLU):
            z = np.array([where(v >= 0, v, v * 0) for v in z], dtype=object)
        else:
            raise RuntimeError("layer %s" % l)
    return z


def preacts(net, x):
    """Pre-activation vectors of the hidden layers at x."""
    z = np.asarray(x, dtype=object)
    out = []
    for l in net:
        if isinstance(l, torch.nn.Linear):
            z = pnp(l.weight).dot(z)
            if l.bias is not None:
                z = z + pnp(l.bias)
        else:
            out.append(z)
            a = getattr(l, "negative_slope", 0.)
            z = np.array([where(v >= 0, v, v * a) for v in z], dtype=object)
    return out


def pnp(t):
    """Tensor to an object array of SR constants/terms or floats."""
    from symx import tensor as st
    if isinstance(t, st.SymTensor):
        return st.obj(t)
    a = t.detach().cpu().numpy()
    return a.astype(object)


def l1(v):
    r = 0
    for x in np.asarray(v, dtype=object).reshape(-1):
        r = r + where(x >= 0, x, -x)
    return r


class Rand:
    """Random numbers become arbitrary values of their range."""
    def __init__(self, h, normal=3.):
        self.h = h
        self.n = 0
        self.normal = normal
        self.log = []

    def _size(self, a, k):
        if "size" in k:
            a = (k.pop("size"), )
        if len(a) == 1 and isinstance(a[0], (tuple, list, torch.Size)):
            a = tuple(a[0])
        return tuple(int(v) for v in a)

    def _draw(self, size, lo, hi, dtype, half=False):
        self.n += 1
        dtype = dtype or torch.get_default_dtype()
        v = self.h.reals("rnd%d" % self.n, size if size else (1, ), lo, hi)
        if half:
            self.h.assume([x < hi for x in v.reshape(-1)])
        self.log.append(v.copy())
        t = self.h.as_tensor(v, dtype)
        return t if size else t[0]

    def rand(self, *a, **k):
        return self._draw(self._size(a, k), 0., 1., k.get("dtype"), True)

    def randn(self, *a, **k):
        return self._draw(self._size(a, k), -self.normal, self.normal,
                          k.get("dtype"))

    def rand_like(self, t, **k):
        return self._draw(tuple(t.shape), 0., 1., k.get("dtype") or t.dtype,
                          True)

    def randn_like(self, t, **k):
        return self._draw(tuple(t.shape), -self.normal, self.normal,
                          k.get("dtype") or t.dtype)

    NAMES = ("rand", "randn", "rand_like", "randn_like")

    def __enter__(self):
        self.save = {n: getattr(torch, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(torch, n, getattr(self, n))
        return self

    def __exit__(self, *e):
        for n, f in self.save.items():
            setattr(torch, n, f)


# ---- sets of mixed-integer constraints
def leq(h, e, tol=1e-7):
    """e <= 0 (with a tolerance when replaying in floating point)."""
    return e <= (0 if h.symbolic else tol)


def eqz(h, e, tol=1e-7):
    if h.symbolic:
        return e == 0
    return abs(e) <= tol


def mv(A, x):
    """Matrix (tensor or None) times vector as list of numbers."""
    A = pnp(A)
    x = np.asarray(x, dtype=object)
    return [sum((a * v for a, v in zip(row, x)), 0) for row in A]


def _add(h, acc, A, x):
    if A is None:
        return acc
    r = mv(A, x)
    return r if acc is None else [p + q for p, q in zip(acc, r)]


def mic_conds(h, c, x, s=(), b=(), bounds=True):
    """Conditions of a constraint set at (input, slack, binary)."""
    out = []
    if c.rhs_in is not None and c.rhs_in.numel():
        l = None
        for A, v in ((c.Ain_input, x), (c.Ain_slack, s), (c.Ain_binary, b)):
            l = _add(h, l, A, v)
        out += [leq(h, p - q) for p, q in zip(l, pnp(c.rhs_in).reshape(-1))]
    if c.rhs_eq is not None and c.rhs_eq.numel():
        l = None
        for A, v in ((c.Aeq_input, x), (c.Aeq_slack, s), (c.Aeq_binary, b)):
            l = _add(h, l, A, v)
        out += [eqz(h, p - q) for p, q in zip(l, pnp(c.rhs_eq).reshape(-1))]
    if bounds:
        for lo, up, v in ((c.input_lo, c.input_up, x),
                          (c.slack_lo, c.slack_up, s),
                          (c.binary_lo, c.binary_up, b)):
            if lo is not None:
                out += [leq(h, p - q) for p, q in zip(
                    pnp(lo).reshape(-1), v) if not _inf(p)]
            if up is not None:
                out += [leq(h, q - p) for p, q in zip(
                    pnp(up).reshape(-1), v) if not _inf(p)]
    return out


def _inf(v):
    try:
        return abs(float(v)) >= 1e20
    except Exception:
        return False


def mic_out(h, c, x, s=(), b=()):
    l = None
    for A, v in ((c.Aout_input, x), (c.Aout_slack, s), (c.Aout_binary, b)):
        l = _add(h, l, A, v)
    if c.Cout is not None:
        k = list(pnp(c.Cout).reshape(-1))
        l = k if l is None else [p + q for p, q in zip(l, k)]
    return l


def patterns(n):
    import itertools
    return list(itertools.product((0, 1), repeat=n))


def rows_conds(h, mats, vecs, rhs):
    """A1 x1 + A2 x2 + ... <= rhs for one-dimensional coefficient arrays of
    scalar variables."""
    r = pnp(rhs).reshape(-1)
    out = []
    for i in range(len(r)):
        e = -r[i]
        for A, v in zip(mats, vecs):
            e = e + pnp(A).reshape(-1)[i] * v
        out.append(leq(h, e))
    return out
