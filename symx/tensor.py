"""Symbolic torch tensors.

A SymTensor stores an object array `buf` of SR / SB scalars and an int64
tensor `idx` saying which entry of `buf` each element reads.  Views share
`buf`, so aliasing and in-place updates behave as in torch.  The real torch
front end (broadcasting rules, argument parsing, nn.Module, autograd) runs
unchanged above the dispatcher; only the ATen kernels are replaced.
"""
import collections
import math
import numbers
import operator
from fractions import Fraction

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode

from symx import num
from symx.num import SR, SB, Unsupported, band, bor, bnot, ite, smax, smin

aten = torch.ops.aten
stats = collections.Counter()
_CONST0 = SR(Fraction(0))
_CONST1 = SR(Fraction(1))


def _np_idx(idx):
    return idx.numpy()


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, buf, idx, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, idx.shape, strides=idx.stride(),
            storage_offset=idx.storage_offset(), dtype=dtype, device="cpu",
            requires_grad=requires_grad)
        r.buf = buf
        r.idx = idx
        return r

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __repr__(self):
        return "SymTensor(shape=%s, dtype=%s)" % (tuple(self.shape),
                                                  self.dtype)

    def __hash__(self):
        return id(self)


def has_sym_storage(t):
    return isinstance(t, SymTensor) and "buf" in t.__dict__


def obj(t):
    """Object ndarray with the elements of a tensor (copy)."""
    if isinstance(t, SymTensor):
        return t.buf[_np_idx(t.idx)] if t.idx.dim() else np.array(
            t.buf[int(t.idx)], dtype=object)
    return from_plain(t.detach())


def from_plain(t):
    shape = tuple(t.shape)
    out = np.empty(t.numel(), dtype=object)
    flat = t.reshape(-1).tolist()
    if t.dtype.is_floating_point:
        for i, v in enumerate(flat):
            out[i] = SR.const(v)
    else:
        for i, v in enumerate(flat):
            out[i] = v
    return out.reshape(shape)


def wrap(arr, dtype):
    """SymTensor (or plain tensor for concrete int/bool) from an ndarray."""
    arr = np.asarray(arr, dtype=object)
    shape = arr.shape
    flat = np.empty(arr.size, dtype=object)
    flat[:] = arr.reshape(-1) if arr.size else []
    if dtype == torch.bool:
        if all(not isinstance(v, (SB, SR)) for v in flat):
            return torch.tensor([bool(v) for v in flat],
                                dtype=dtype).reshape(shape)
    elif not dtype.is_floating_point:
        ok = True
        for i, v in enumerate(flat):
            if isinstance(v, SB):
                flat[i] = v = SR.const(v)
            if isinstance(v, SR) and v.c is None:
                ok = False
        if ok:
            return torch.tensor([int(v) for v in flat],
                                dtype=dtype).reshape(shape)
        for i, v in enumerate(flat):
            flat[i] = SR.const(v)
    else:
        for i, v in enumerate(flat):
            if not isinstance(v, SR):
                flat[i] = SR.const(v)
    idx = torch.arange(flat.size).reshape(shape)
    return SymTensor(flat, idx, dtype)


def sym(t):
    """Any tensor as a SymTensor (constants for plain float tensors)."""
    if isinstance(t, SymTensor):
        return t
    a = from_plain(t.detach())
    flat = np.empty(a.size, dtype=object)
    flat[:] = a.reshape(-1)
    # keep strides so that views are laid out as torch expects
    idx = torch.arange(flat.size).reshape(tuple(t.shape))
    r = SymTensor(flat, idx, t.dtype)
    return r


def is_tensor(x):
    return isinstance(x, torch.Tensor)


def const_tensor(t):
    """Plain torch tensor of a SymTensor whose elements are all constants."""
    a = obj(t)
    flat = a.reshape(-1)
    if t.dtype == torch.bool:
        return torch.tensor([bool(v) for v in flat],
                            dtype=torch.bool).reshape(tuple(t.shape))
    vals = []
    for v in flat:
        v = SR.const(v)
        if v.c is None:
            raise Unsupported("symbolic element where a concrete is needed")
        vals.append(v.c)
    if t.dtype.is_floating_point:
        vals = [float(v) for v in vals]
    else:
        vals = [int(v) for v in vals]
    return torch.tensor(vals, dtype=t.dtype).reshape(tuple(t.shape))


def all_const(t):
    if not isinstance(t, SymTensor):
        return True
    for v in obj(t).reshape(-1):
        if isinstance(v, SB) or (isinstance(v, SR) and v.c is None):
            return False
    return True


def concretize(t):
    """Plain int/bool tensor; forks on symbolic elements."""
    if not isinstance(t, SymTensor):
        return t
    a = obj(t).reshape(-1)
    if t.dtype == torch.bool:
        return torch.tensor([bool(v) for v in a],
                            dtype=torch.bool).reshape(tuple(t.shape))
    vals = []
    for v in a:
        v = SR.const(v)
        if v.c is None:
            vals.append(concretize_int(v))
        else:
            vals.append(int(v.c))
    return torch.tensor(vals, dtype=t.dtype).reshape(tuple(t.shape))


def concretize_int(v, limit=64):
    for k in range(limit):
        for s in ((k, -k) if k else (0, )):
            if bool(v == s):
                return s
    raise Unsupported("symbolic integer outside [-%d,%d]" % (limit, limit))


# ---------------------------------------------------------------------------
# element-wise helpers

def rtype(*args):
    r = None
    ts = []
    for a in args:
        if is_tensor(a):
            ts.append(torch.empty((1, ) if a.dim() else (), dtype=a.dtype))
        elif isinstance(a, SR):
            ts.append(1.0)
        elif isinstance(a, SB):
            ts.append(True)
        elif isinstance(a, (bool, int, float)):
            ts.append(a)
    r = ts[0]
    if len(ts) == 1:
        return r.dtype if is_tensor(r) else torch.get_default_dtype()
    # torch.result_type is pairwise; fold through a dummy
    dt = torch.result_type(ts[0], ts[1])
    for t in ts[2:]:
        dt = torch.result_type(torch.empty((1, ), dtype=dt), t)
    return dt


def _arrs(args):
    ts = [a for a in args if is_tensor(a)]
    shape = torch.broadcast_shapes(*[tuple(t.shape) for t in ts])
    out = []
    for a in args:
        if is_tensor(a):
            out.append(np.broadcast_to(obj(a), shape))
        else:
            if isinstance(a, (float, np.floating)) :
                a = SR.const(a)
            s = np.empty((), dtype=object)
            s[()] = a
            out.append(np.broadcast_to(s, shape))
    return out, shape


def ew(fn, args, dtype):
    arrs, shape = _arrs(args)
    out = np.empty(int(np.prod(shape)), dtype=object)
    its = [a.reshape(-1) for a in arrs]
    for i in range(out.size):
        out[i] = fn(*[t[i] for t in its])
    stats["elements"] += out.size
    return wrap(out.reshape(shape), dtype)


def fdt(*args):
    dt = rtype(*args)
    return dt if dt.is_floating_point else torch.get_default_dtype()


def R(v):
    return v if isinstance(v, SR) else SR.const(v)


TABLE = {}


def op(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def write(dst, arr):
    """dst[...] = arr, in place."""
    if not isinstance(dst, SymTensor):
        if all(not isinstance(v, SB) and not (isinstance(v, SR) and v.c is
                                              None)
               for v in np.asarray(arr, dtype=object).reshape(-1)):
            src = wrap(np.broadcast_to(arr, tuple(dst.shape)), dst.dtype)
            dst.copy_(const_tensor(src) if isinstance(src, SymTensor)
                      else src)
            return dst
        raise Unsupported("in-place write of symbols into a tensor created "
                          "outside the symbolic run")
    a = np.broadcast_to(np.asarray(arr, dtype=object), tuple(dst.shape))
    ii = _np_idx(dst.idx).reshape(-1)
    f = a.reshape(-1)
    isf = dst.dtype.is_floating_point
    for k in range(ii.size):
        v = f[k]
        if isf and not isinstance(v, SR):
            v = SR.const(v)
        elif dst.dtype == torch.bool and isinstance(v, SR):
            v = v != 0
        dst.buf[ii[k]] = v
    return dst


# --- binary arithmetic
def _isbool(*a):
    return all((is_tensor(x) and x.dtype == torch.bool) or isinstance(
        x, (bool, SB)) for x in a)


@op("add")
def _add(a, b, alpha=1):
    if _isbool(a, b):
        return ew(bor, (a, b), torch.bool)
    if alpha == 1:
        return ew(lambda x, y: R(x) + R(y), (a, b), rtype(a, b))
    al = R(alpha)
    return ew(lambda x, y: R(x) + al * R(y), (a, b), rtype(a, b))


@op("sub")
def _sub(a, b, alpha=1):
    al = R(alpha)
    return ew(lambda x, y: R(x) - al * R(y), (a, b), rtype(a, b))


@op("rsub")
def _rsub(a, b, alpha=1):
    al = R(alpha)
    return ew(lambda x, y: R(y) - al * R(x), (a, b), rtype(a, b))


@op("mul")
def _mul(a, b):
    if _isbool(a, b):
        return ew(band, (a, b), torch.bool)
    return ew(lambda x, y: R(x) * R(y), (a, b), rtype(a, b))


@op("div", "true_divide")
def _div(a, b, rounding_mode=None):
    if rounding_mode == "floor":
        return ew(lambda x, y: (R(x) / R(y)).floor(), (a, b), rtype(a, b))
    if rounding_mode == "trunc":
        return ew(lambda x, y: SR(Fraction(int((R(x) / R(y)).c))), (a, b),
                  rtype(a, b))
    return ew(lambda x, y: R(x) / R(y), (a, b), fdt(a, b))


@op("floor_divide")
def _floordiv(a, b):
    return ew(lambda x, y: (R(x) / R(y)).floor(), (a, b), rtype(a, b))


@op("remainder")
def _remainder(a, b):
    return ew(lambda x, y: R(x) % R(y), (a, b), rtype(a, b))


@op("pow")
def _pow(a, b):
    return ew(lambda x, y: R(x)**(y if not isinstance(y, SR) else
                                  (y.c if y.c is not None else y)), (a, b),
              rtype(a, b))


@op("maximum", "fmax")
def _maximum(a, b):
    if _isbool(a, b):
        return ew(bor, (a, b), torch.bool)
    return ew(smax, (a, b), rtype(a, b))


@op("minimum", "fmin")
def _minimum(a, b):
    if _isbool(a, b):
        return ew(band, (a, b), torch.bool)
    return ew(smin, (a, b), rtype(a, b))


@op("clamp")
def _clamp(a, min=None, max=None):
    dt = rtype(*[x for x in (a, min, max) if x is not None])
    if min is not None:
        a = ew(smax, (a, min), dt)
    if max is not None:
        a = ew(smin, (a, max), dt)
    return a


@op("clamp_min")
def _clamp_min(a, m):
    return _clamp(a, m, None)


@op("clamp_max")
def _clamp_max(a, m):
    return _clamp(a, None, m)


def _beq(x, y):
    if isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
        if isinstance(x, SB):
            return x == y
        if isinstance(y, SB):
            return y == x
        return x == y
    return R(x) == R(y)


for _n, _f in (("lt", lambda x, y: R(x) < R(y)),
               ("le", lambda x, y: R(x) <= R(y)),
               ("gt", lambda x, y: R(x) > R(y)),
               ("ge", lambda x, y: R(x) >= R(y)),
               ("eq", _beq), ("ne", lambda x, y: bnot(_beq(x, y)))):
    TABLE[_n] = (lambda f: lambda a, b: ew(f, (a, b), torch.bool))(_f)


def B(v):
    if isinstance(v, SR):
        return v != 0
    return v


for _n, _f in (("logical_and", band), ("logical_or", bor),
               ("logical_xor", lambda x, y: bor(band(x, bnot(y)),
                                                band(bnot(x), y)))):
    TABLE[_n] = (lambda f: lambda a, b: ew(lambda x, y: f(B(x), B(y)),
                                           (a, b), torch.bool))(_f)
TABLE["bitwise_and"] = TABLE["logical_and"]
TABLE["bitwise_or"] = TABLE["logical_or"]
TABLE["bitwise_xor"] = TABLE["logical_xor"]
TABLE["__and__"] = TABLE["logical_and"]
TABLE["__or__"] = TABLE["logical_or"]
TABLE["__xor__"] = TABLE["logical_xor"]
TABLE["logical_not"] = lambda a: ew(lambda x: bnot(B(x)), (a, ), torch.bool)
TABLE["bitwise_not"] = TABLE["logical_not"]


def un(name, f, flt=True):
    TABLE[name] = lambda a, *r, **k: ew(lambda x: f(R(x)), (a, ),
                                        fdt(a) if flt else a.dtype)


un("neg", operator.neg, False)
un("abs", abs, False)
un("sqrt", SR.sqrt)
un("sin", SR.sin)
un("cos", SR.cos)
un("tan", SR.tan)
un("exp", SR.exp)
un("log", SR.log)
un("log1p", SR.log1p)
un("expm1", SR.expm1)
un("tanh", SR.tanh)
un("sigmoid", SR.sigmoid)
un("atan", SR.arctan)
un("asin", SR.arcsin)
un("acos", SR.arccos)
un("sgn", SR.sign, False)
un("sign", SR.sign, False)
un("floor", SR.floor, False)
un("ceil", SR.ceil, False)
un("round", SR.rint, False)
un("reciprocal", lambda x: _CONST1 / x)
un("rsqrt", lambda x: _CONST1 / x.sqrt())
un("square", lambda x: x * x, False)
un("relu", lambda x: ite(x > 0, x, _CONST0), False)
un("relu6", lambda x: smin(smax(x, 0), 6), False)
un("positive", lambda x: x, False)
un("log_sigmoid", lambda x: x._fn("logsigmoid",
                                  lambda v: -math.log1p(math.exp(-v))))


@op("leaky_relu")
def _leaky(a, slope=0.01):
    s = R(slope)
    return ew(lambda x: ite(x > 0, x, s * x), (a, ), a.dtype)


@op("leaky_relu_backward")
def _leaky_b(g, a, slope, is_result=False):
    s = R(slope)
    return ew(lambda x, y: ite(y > 0, R(x), s * R(x)), (g, a), rtype(g, a))


@op("threshold_backward")
def _thr_b(g, a, thr):
    t = R(thr)
    return ew(lambda x, y: ite(R(y) > t, R(x), _CONST0), (g, a), rtype(g, a))


@op("threshold")
def _thr(a, thr, value):
    t, v = R(thr), R(value)
    return ew(lambda x: ite(R(x) > t, R(x), v), (a, ), a.dtype)


@op("hardtanh")
def _hardtanh(a, lo=-1, hi=1):
    return _clamp(a, lo, hi)


@op("hardtanh_backward")
def _hardtanh_b(g, a, lo, hi):
    return ew(lambda x, y: ite(band(R(y) > lo, R(y) < hi), R(x), _CONST0),
              (g, a), rtype(g, a))


@op("elu")
def _elu(a, alpha=1, scale=1, input_scale=1):
    return ew(lambda x: ite(R(x) > 0, R(x) * scale,
                            (R(x) * input_scale).exp() * alpha * scale -
                            R(alpha) * scale), (a, ), a.dtype)


@op("softplus")
def _softplus(a, beta=1, threshold=20):
    raise Unsupported("softplus")


@op("tanh_backward")
def _tanh_b(g, o):
    return ew(lambda x, y: R(x) * (1 - R(y) * R(y)), (g, o), rtype(g, o))


@op("sigmoid_backward")
def _sig_b(g, o):
    return ew(lambda x, y: R(x) * R(y) * (1 - R(y)), (g, o), rtype(g, o))


@op("where")
def _where(c, a=None, b=None):
    if a is None:
        return TABLE["nonzero"](c).unbind(1)
    dt = rtype(a, b)
    return ew(lambda k, x, y: ite(B(k), x, y) if not (
        isinstance(x, (bool, SB)) and isinstance(y, (bool, SB))) else
        bor(band(B(k), x), band(bnot(B(k)), y)), (c, a, b), dt)


@op("masked_fill")
def _masked_fill(a, m, v):
    return ew(lambda x, k, y: ite(B(k), y, x), (a, m, v), a.dtype)


@op("lerp")
def _lerp(a, b, w):
    return ew(lambda x, y, z: R(x) + R(z) * (R(y) - R(x)), (a, b, w),
              rtype(a, b))


@op("addcmul")
def _addcmul(a, b, c, value=1):
    v = R(value)
    return ew(lambda x, y, z: R(x) + v * R(y) * R(z), (a, b, c),
              rtype(a, b, c))


@op("addcdiv")
def _addcdiv(a, b, c, value=1):
    v = R(value)
    return ew(lambda x, y, z: R(x) + v * R(y) / R(z), (a, b, c),
              rtype(a, b, c))


for _n, _f in (("isnan", lambda c: c != c),
               ("isinf", lambda c: isinstance(c, float) and c == c),
               ("isfinite", lambda c: not isinstance(c, float))):
    TABLE[_n] = (lambda f, n: lambda a: ew(
        lambda x: (n == "isfinite") if R(x).c is None else bool(f(R(x).c)),
        (a, ), torch.bool))(_f, _n)


@op("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = R(rtol), R(atol)

    def f(x, y):
        x, y = R(x), R(y)
        if (x.c is not None and isinstance(x.c, float)) or (
                y.c is not None and isinstance(y.c, float)):
            return x.c == y.c
        return abs(x - y) <= at + rt * abs(y)
    return ew(f, (a, b), torch.bool)


TABLE["allclose"] = lambda a, b, **k: _all_py(_isclose(a, b, **k))


@op("equal")
def _equal(a, b):
    if tuple(a.shape) != tuple(b.shape):
        return False
    return _all_py(TABLE["eq"](a, b))


def _all_py(t):
    if not isinstance(t, SymTensor):
        return bool(t.all())
    return bool(band(*obj(t).reshape(-1)))


# --- linear algebra
def _matmul2(A, Bm):
    n, k = A.shape
    k2, m = Bm.shape
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        row = A[i]
        for j in range(m):
            s = _CONST0
            for t in range(k):
                a = row[t]
                b = Bm[t, j]
                if a.c is not None and a.c == 0 and not (
                        b.c is not None and isinstance(b.c, float)):
                    continue
                if b.c is not None and b.c == 0 and not (
                        a.c is not None and isinstance(a.c, float)):
                    continue
                s = s + a * b
            out[i, j] = s
    stats["elements"] += n * m * k
    return out


def _ro(t):
    a = obj(t)
    if not t.dtype.is_floating_point:
        f = np.empty(a.size, dtype=object)
        for i, v in enumerate(a.reshape(-1)):
            f[i] = SR.const(v)
        a = f.reshape(a.shape)
    return a


def _same_dt(*ts):
    ds = {t.dtype for t in ts}
    if len(ds) > 1:
        raise RuntimeError("expected m1 and m2 to have the same dtype, but "
                           "got: %s" % (sorted(map(str, ds)), ))


@op("mm")
def _mm(a, b):
    _same_dt(a, b)
    if a.shape[1] != b.shape[0]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    return wrap(_matmul2(_ro(a), _ro(b)), a.dtype)


@op("mv")
def _mv(a, b):
    _same_dt(a, b)
    if a.shape[1] != b.shape[0]:
        raise RuntimeError("size mismatch, got input (%s), mat (%s), vec(%s)"
                           % (a.shape[0], tuple(a.shape), b.shape[0]))
    return wrap(_matmul2(_ro(a), _ro(b).reshape(-1, 1))[:, 0], a.dtype)


@op("dot", "vdot")
def _dot(a, b):
    _same_dt(a, b)
    if a.numel() != b.numel():
        raise RuntimeError("inconsistent tensor size")
    return wrap(_matmul2(_ro(a).reshape(1, -1), _ro(b).reshape(-1, 1))[0, 0],
                a.dtype)


@op("bmm")
def _bmm(a, b):
    _same_dt(a, b)
    A, Bm = _ro(a), _ro(b)
    if A.shape[0] != Bm.shape[0] or A.shape[2] != Bm.shape[1]:
        raise RuntimeError("bmm shape mismatch")
    out = np.empty((A.shape[0], A.shape[1], Bm.shape[2]), dtype=object)
    for i in range(A.shape[0]):
        out[i] = _matmul2(A[i], Bm[i])
    return wrap(out, a.dtype)


@op("addmm")
def _addmm(c, a, b, beta=1, alpha=1):
    _same_dt(a, b, c)
    r = _mm(a, b)
    if alpha != 1:
        r = _mul(r, alpha)
    if beta != 1:
        c = _mul(c, beta)
    return _add(r, c)


@op("addmv")
def _addmv(c, a, b, beta=1, alpha=1):
    r = _mv(a, b)
    if alpha != 1:
        r = _mul(r, alpha)
    if beta != 1:
        c = _mul(c, beta)
    return _add(r, c)


@op("baddbmm")
def _baddbmm(c, a, b, beta=1, alpha=1):
    r = _bmm(a, b)
    if alpha != 1:
        r = _mul(r, alpha)
    if beta != 1:
        c = _mul(c, beta)
    return _add(r, c)


def _solve_exact(A, Bm):
    """Gauss-Jordan over SR; pivots must be constants."""
    n = A.shape[0]
    M = np.concatenate([A, Bm], axis=1).copy()
    for i in range(n):
        piv = None
        best = None
        for r in range(i, n):
            v = M[r, i]
            if v.c is not None and v.c != 0:
                if best is None or abs(v.c) > best:
                    piv, best = r, abs(v.c)
        if piv is None:
            for r in range(i, n):
                if M[r, i].c is None:
                    piv = r
                    break
        if piv is None:
            raise torch.linalg.LinAlgError("singular matrix")
        if piv != i:
            M[[i, piv]] = M[[piv, i]]
        p = M[i, i]
        M[i] = np.array([v / p for v in M[i]] + [None], dtype=object)[:-1]
        for r in range(n):
            if r != i:
                f = M[r, i]
                if f.c is not None and f.c == 0:
                    continue
                for cidx in range(i, M.shape[1]):
                    M[r, cidx] = M[r, cidx] - f * M[i, cidx]
    return M[:, n:]


def _eye_obj(n):
    e = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            e[i, j] = _CONST1 if i == j else _CONST0
    return e


@op("inverse", "linalg_inv")
def _inverse(a):
    A = _ro(a)
    if A.ndim == 2:
        return wrap(_solve_exact(A, _eye_obj(A.shape[0])), a.dtype)
    raise Unsupported("batched inverse")


@op("linalg_inv_ex")
def _inv_ex(a, check_errors=False):
    return _inverse(a), torch.zeros((), dtype=torch.int32)


@op("linalg_solve")
def _lsolve(A, Bt, left=True):
    a, b = _ro(A), _ro(Bt)
    vec = b.ndim == 1
    x = _solve_exact(a, b.reshape(-1, 1) if vec else b)
    return wrap(x[:, 0] if vec else x, A.dtype)


@op("_linalg_solve_ex")
def _lsolve_ex(A, Bt, left=True, check_errors=False):
    if not left:
        raise Unsupported("right solve")
    n = A.shape[0]
    return (_lsolve(A, Bt), A.clone(),
            torch.arange(1, n + 1, dtype=torch.int32),
            torch.zeros((), dtype=torch.int32))


@op("linalg_cross")
def _lcross(a, b, dim=-1):
    A, Bm = np.broadcast_arrays(_ro(a), _ro(b))
    A = np.moveaxis(A, dim, -1)
    Bm = np.moveaxis(Bm, dim, -1)
    if A.shape[-1] != 3:
        raise RuntimeError("linalg.cross: inputs dimension must have length 3")
    out = np.empty(A.shape, dtype=object)
    for i in np.ndindex(A.shape[:-1]):
        x, y = A[i], Bm[i]
        out[i + (0, )] = x[1] * y[2] - x[2] * y[1]
        out[i + (1, )] = x[2] * y[0] - x[0] * y[2]
        out[i + (2, )] = x[0] * y[1] - x[1] * y[0]
    return wrap(np.moveaxis(out, -1, dim), a.dtype)


TABLE["cross"] = lambda a, b, dim=None: _lcross(
    a, b, next(i for i, s in enumerate(a.shape) if s == 3)
    if dim is None else dim)


# --- reductions
def _dims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(d % nd if nd else 0 for d in dim)


def reduce_(t, dim, keepdim, fn, dtype, conv=R):
    a = obj(t)
    nd = a.ndim
    if nd == 0:
        return wrap(np.array(fn([conv(a[()])]), dtype=object), dtype)
    ds = _dims(dim, nd)
    rest = [d for d in range(nd) if d not in ds]
    at = a.transpose(rest + list(ds))
    rs = tuple(a.shape[d] for d in rest)
    at = at.reshape(rs + (-1, )) if a.size else at.reshape(
        rs + (int(np.prod([a.shape[d] for d in ds])), ))
    out = np.empty(rs, dtype=object)
    for i in np.ndindex(rs):
        out[i] = fn([conv(v) for v in at[i]])
    stats["elements"] += a.size
    if keepdim:
        out = out.reshape(tuple(1 if d in ds else a.shape[d]
                                for d in range(nd)))
    return wrap(out, dtype)


def _sumf(vs):
    s = _CONST0
    for v in vs:
        s = s + v
    return s


def _prodf(vs):
    s = _CONST1
    for v in vs:
        s = s * v
    return s


def _maxf(vs):
    s = vs[0]
    for v in vs[1:]:
        s = smax(s, v)
    return s


def _minf(vs):
    s = vs[0]
    for v in vs[1:]:
        s = smin(s, v)
    return s


def _sdt(t, dtype):
    if dtype is not None:
        return dtype
    return t.dtype if t.dtype.is_floating_point else torch.int64


@op("sum")
def _sum(t, dim=None, keepdim=False, dtype=None):
    return reduce_(t, dim, keepdim, _sumf, _sdt(t, dtype))


@op("mean")
def _mean(t, dim=None, keepdim=False, dtype=None):
    def f(vs):
        if not vs:
            return SR(float("nan"))
        return _sumf(vs) / len(vs)
    return reduce_(t, dim, keepdim, f, _sdt(t, dtype))


@op("prod")
def _prod(t, dim=None, keepdim=False, dtype=None):
    return reduce_(t, dim, keepdim, _prodf, _sdt(t, dtype))


@op("amax")
def _amax(t, dim=(), keepdim=False):
    return reduce_(t, dim, keepdim, _maxf, t.dtype)


@op("amin")
def _amin(t, dim=(), keepdim=False):
    return reduce_(t, dim, keepdim, _minf, t.dtype)


@op("all")
def _all(t, dim=None, keepdim=False):
    return reduce_(t, dim, keepdim, lambda v: band(*v), torch.bool, B)


@op("any")
def _any(t, dim=None, keepdim=False):
    return reduce_(t, dim, keepdim, lambda v: bor(*v), torch.bool, B)


@op("argmax")
def _argmax(t, dim=None, keepdim=False):
    return reduce_(t, dim, keepdim, lambda v: _argbest(v, True)[1],
                   torch.int64)


@op("argmin")
def _argmin(t, dim=None, keepdim=False):
    return reduce_(t, dim, keepdim, lambda v: _argbest(v, False)[1],
                   torch.int64)


def _argbest(vs, mx):
    best, bi = vs[0], SR(Fraction(0))
    for k, v in enumerate(vs[1:], 1):
        c = (v > best) if mx else (v < best)
        best, bi = ite(c, v, best), ite(c, SR(Fraction(k)), bi)
    return best, bi


def _max_dim(t, dim, keepdim, mx):
    if t.dtype == torch.bool:
        raise Unsupported("max over bool")
    v = reduce_(t, [dim], keepdim, lambda q: _argbest(q, mx)[0], t.dtype)
    i = reduce_(t, [dim], keepdim, lambda q: _argbest(q, mx)[1], torch.int64)
    return v, i


@op("max")
def _max(t, dim=None, keepdim=False):
    if is_tensor(dim):
        return _maximum(t, dim)
    if dim is None:
        if t.dtype == torch.bool:
            return _any(t)
        return _amax(t)
    return _max_dim(t, dim, keepdim, True)


@op("min")
def _min(t, dim=None, keepdim=False):
    if is_tensor(dim):
        return _minimum(t, dim)
    if dim is None:
        if t.dtype == torch.bool:
            return _all(t)
        return _amin(t)
    return _max_dim(t, dim, keepdim, False)


@op("evenly_distribute_backward")
def _edb(g, inp, val):
    # gradient of full max/min: shared between the maximal entries
    a = obj(inp).reshape(-1)
    v = R(obj(val)[()])
    gg = R(obj(g)[()])
    eqs = [ite(R(x) == v, _CONST1, _CONST0) for x in a]
    cnt = _sumf(eqs)
    share = gg / cnt if cnt.c is not None else gg * num.recip(cnt)
    out = np.array([e * share for e in eqs] + [None], dtype=object)[:-1]
    return wrap(out.reshape(tuple(inp.shape)), inp.dtype)


@op("linalg_vector_norm")
def _vnorm(t, ord=2, dim=None, keepdim=False, dtype=None):
    o = R(ord).c
    if o == 2:
        f = lambda v: _sumf([x * x for x in v]).sqrt()  # noqa
    elif o == 1:
        f = lambda v: _sumf([abs(x) for x in v])  # noqa
    elif o == 4:
        f = lambda v: _sumf([x * x * x * x for x in v]).sqrt().sqrt()  # noqa
    elif o == float("inf"):
        f = lambda v: _maxf([abs(x) for x in v])  # noqa
    elif o == float("-inf"):
        f = lambda v: _minf([abs(x) for x in v])  # noqa
    elif o == 0:
        f = lambda v: _sumf([ite(x != 0, _CONST1, _CONST0) for x in v])  # noqa
    else:
        raise Unsupported("norm of order %s" % o)
    return reduce_(t, dim, keepdim, f, dtype or t.dtype)


@op("norm")
def _norm(t, p=2, dim=None, keepdim=False, dtype=None):
    return _vnorm(t, 2 if p is None else p, dim, keepdim, dtype)


@op("_cdist_forward")
def _cdist(a, b, p, m=None):
    A, Bm = _ro(a), _ro(b)
    out = np.empty((A.shape[0], Bm.shape[0]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(Bm.shape[0]):
            out[i, j] = R(obj(_vnorm(wrap(A[i] - Bm[j], a.dtype), p))[()])
    return wrap(out, a.dtype)


@op("var")
def _var(t, dim=None, correction=1, keepdim=False, unbiased=None):
    if unbiased is not None:
        correction = 1 if unbiased else 0
    if not isinstance(dim, (list, tuple, int)) or isinstance(dim, bool):
        dim = None

    def f(vs):
        m = _sumf(vs) / len(vs)
        return _sumf([(v - m) * (v - m) for v in vs]) / (len(vs) - correction)
    return reduce_(t, dim, keepdim, f, t.dtype)


@op("std")
def _std(t, dim=None, correction=1, keepdim=False, unbiased=None):
    return TABLE["sqrt"](_var(t, dim, correction, keepdim, unbiased))


def _cum(f, unit):
    def run(t, dim, dtype=None):
        a = obj(t).copy()
        if a.ndim == 0:
            return wrap(a, t.dtype)
        b = np.moveaxis(a, dim, -1)
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(b.shape[:-1]):
            s = unit
            for k in range(b.shape[-1]):
                s = f(s, R(b[i + (k, )]))
                out[i + (k, )] = s
        return wrap(np.moveaxis(out, -1, dim), _sdt(t, dtype))
    return run


TABLE["cumsum"] = _cum(operator.add, _CONST0)
TABLE["cumprod"] = _cum(operator.mul, _CONST1)


# --- losses with fused kernels
def _red(t, reduction):
    return {0: lambda x: x, 1: _mean, 2: _sum}[reduction](t)


@op("mse_loss")
def _mse(a, b, reduction=1):
    d = _sub(a, b)
    return _red(_mul(d, d), reduction)


@op("mse_loss_backward")
def _mse_b(g, a, b, reduction):
    d = _mul(_sub(a, b), 2)
    if reduction == 1:
        d = _div(d, a.numel())
    return _mul(d, g)


@op("l1_loss")
def _l1(a, b, reduction=1):
    return _red(TABLE["abs"](_sub(a, b)), reduction)


@op("binary_cross_entropy")
def _bce(x, y, weight=None, reduction=1):
    def f(p, t):
        p, t = R(p), R(t)
        return -(t * smax(p.log(), -100) + (1 - t) *
                 smax((1 - p).log(), -100))
    r = ew(f, (x, y), x.dtype)
    if weight is not None:
        r = _mul(r, weight)
    return _red(r, reduction)


# --- data-dependent
@op("_local_scalar_dense")
def _item(t):
    v = obj(t).reshape(-1)[0]
    if isinstance(v, SR):
        if v.c is None:
            raise Unsupported("symbolic scalar escapes into C++")
        return float(v.c) if t.dtype.is_floating_point else int(v.c)
    return bool(v)


@op("is_nonzero")
def _isnz(t):
    return bool(B(obj(t).reshape(-1)[0]))


@op("nonzero")
def _nonzero(t):
    if t.dtype != torch.bool:
        t = TABLE["ne"](t, 0)
    return torch.nonzero(concretize(t))


@op("masked_select")
def _masked_select(t, m):
    m = concretize(m)
    t, m = torch.broadcast_tensors(sym(t), m)
    return _index(t, [m])


def _cidx(indices):
    return [None if i is None else (concretize(i) if isinstance(
        i, SymTensor) else i) for i in indices]


@op("index")
def _index(t, indices):
    t = sym(t)
    if any(isinstance(i, SymTensor) and i.dtype != torch.bool and
           not all_const(i) for i in indices) and sum(
               i is not None for i in indices) == 1:
        d = next(k for k, i in enumerate(indices) if i is not None)
        return _index_sym(t, d, indices[d])
    ni = aten.index(t.idx, _cidx(indices))
    return copy_of(t, ni)


def _index_sym(t, d, i):
    a = np.moveaxis(obj(t), d, 0)
    ii = obj(i)
    out = np.empty(ii.shape + a.shape[1:], dtype=object)
    for q in np.ndindex(ii.shape):
        k = R(ii[q])
        for r in np.ndindex(a.shape[1:]):
            v = a[(0, ) + r]
            for j in range(1, a.shape[0]):
                v = ite(k == j, a[(j, ) + r], v)
            out[q + r] = v
    if d:
        nd = ii.ndim
        out = np.moveaxis(out, list(range(nd)), list(range(d, d + nd)))
    return wrap(out, t.dtype)


def copy_of(t, ni):
    flat = t.buf[_np_idx(ni.reshape(-1))]
    if ni.dim() == 0:
        flat = np.array([flat[0]], dtype=object)
    return wrap(np.asarray(flat, dtype=object).reshape(tuple(ni.shape)),
                t.dtype)


@op("index_put_")
def _index_put_(t, indices, values, accumulate=False):
    if len(indices) == 1 and isinstance(
            indices[0], SymTensor) and indices[0].dtype == torch.bool and (
                not is_tensor(values) or values.numel() == 1):
        m = indices[0]
        v = values if not is_tensor(values) else obj(values).reshape(-1)[0]
        mm = obj(m)
        mm = mm.reshape(mm.shape + (1, ) * (t.dim() - mm.ndim))
        cur = obj(t)
        mm = np.broadcast_to(mm, cur.shape)
        out = np.empty(cur.shape, dtype=object)
        for i in np.ndindex(cur.shape):
            out[i] = ite(mm[i], R(cur[i]) + v if accumulate else v, cur[i])
        write(t, out)
        return t
    ii = _cidx(indices)
    if not isinstance(t, SymTensor):
        if not isinstance(values, SymTensor) or all_const(values):
            return aten.index_put_(
                t, ii, const_tensor(values) if isinstance(values, SymTensor)
                else values, accumulate)
        raise Unsupported("index_put_ of symbols into an outside tensor")
    tgt = aten.index(t.idx, ii)
    vv = np.broadcast_to(obj(values), tuple(tgt.shape)).reshape(-1)
    ti = tgt.reshape(-1).tolist()
    for k, v in zip(ti, vv):
        if t.dtype.is_floating_point:
            v = R(v)
        t.buf[k] = (t.buf[k] + v) if accumulate else v
    return t


@op("index_put", "_unsafe_index_put")
def _index_put(t, indices, values, accumulate=False):
    return _index_put_(copy_of(sym(t), sym(t).idx), indices, values,
                       accumulate)


TABLE["_index_put_impl_"] = lambda t, i, v, accumulate=False, \
    unsafe=False: _index_put_(t, i, v, accumulate)


@op("gather")
def _gather(t, dim, index, sparse_grad=False):
    t = sym(t)
    if isinstance(index, SymTensor) and not all_const(index):
        a = np.moveaxis(obj(t), dim, -1) if t.dim() else obj(t).reshape(1)
        ii = np.moveaxis(obj(index), dim, -1) if index.dim() else obj(
            index).reshape(1)
        out = np.empty(ii.shape, dtype=object)
        for q in np.ndindex(ii.shape):
            row = a[q[:-1]]
            v = row[0]
            for j in range(1, len(row)):
                v = ite(R(ii[q]) == j, row[j], v)
            out[q] = v
        out = np.moveaxis(out, -1, dim) if index.dim() else out.reshape(())
        return wrap(out, t.dtype)
    return copy_of(t, aten.gather(t.idx, dim, concretize(index)))


def _scatter_(t, dim, index, src, add=False):
    d = dim % max(t.dim(), 1)
    if isinstance(index, SymTensor) and not all_const(index):
        cur = np.moveaxis(obj(t), d, -1).copy() if t.dim() else obj(
            t).reshape(1)
        ii = np.moveaxis(obj(index), d, -1) if index.dim() else obj(
            index).reshape(1)
        ss = obj(src) if is_tensor(src) else None
        if ss is not None:
            ss = np.moveaxis(ss, d, -1) if ss.ndim else ss.reshape(1)
        for q in np.ndindex(ii.shape):
            v = ss[q] if ss is not None else R(src)
            for j in range(cur.shape[-1]):
                p = q[:-1] + (j, )
                cur[p] = ite(R(ii[q]) == j, cur[p] + v if add else v, cur[p])
        out = np.moveaxis(cur, -1, d) if t.dim() else cur.reshape(())
        write(t, out)
        return t
    index = concretize(index)
    if t.dim() == 0:
        v = R(obj(src).reshape(-1)[0]) if is_tensor(src) else R(src)
        o = obj(t)[()]
        write(t, np.array(o + v if add else v, dtype=object))
        return t
    base = torch.arange(t.numel()).reshape(tuple(t.shape))
    pos = aten.gather(base, dim, index).reshape(-1).tolist()
    flat = t.idx.reshape(-1).tolist()
    if is_tensor(src):
        ss = obj(src)
        ss = ss[tuple(slice(0, s) for s in index.shape)].reshape(-1)
    else:
        ss = [R(src)] * len(pos)
    for p, v in zip(pos, ss):
        k = flat[p]
        t.buf[k] = t.buf[k] + v if add else v
    return t


TABLE["scatter_"] = lambda t, dim, index, src, **k: _scatter_(
    t, dim, index, src)
TABLE["scatter_add_"] = lambda t, dim, index, src: _scatter_(
    t, dim, index, src, True)
TABLE["scatter"] = lambda t, dim, index, src, **k: _scatter_(
    copy_of(sym(t), sym(t).idx), dim, index, src)
TABLE["scatter_add"] = lambda t, dim, index, src: _scatter_(
    copy_of(sym(t), sym(t).idx), dim, index, src, True)


@op("value_selecting_reduction_backward")
def _vsrb(g, dim, indices, sizes, keepdim):
    if not keepdim and len(sizes) > 0:
        g = g.unsqueeze(dim)
        indices = indices.unsqueeze(dim)
    z = np.empty(int(np.prod(sizes)), dtype=object)
    z[:] = _CONST0
    t = wrap(z.reshape(tuple(sizes)), g.dtype)
    return _scatter_(t, dim, indices, g)


@op("select_scatter")
def _select_scatter(t, src, dim, index):
    r = copy_of(sym(t), sym(t).idx)
    write(aten_view(r, aten.select.int, (dim, index), {}), obj(src))
    return r


@op("slice_scatter")
def _slice_scatter(t, src, dim=0, start=None, end=None, step=1):
    r = copy_of(sym(t), sym(t).idx)
    write(aten_view(r, aten.slice.Tensor, (dim, start, end, step), {}),
          obj(src))
    return r


def _zeros_like_shape(shape, dtype):
    z = np.empty(int(np.prod(shape)), dtype=object)
    z[:] = _CONST0
    return wrap(z.reshape(tuple(shape)), dtype)


@op("select_backward")
def _select_b(g, sizes, dim, index):
    r = _zeros_like_shape(sizes, g.dtype)
    write(aten_view(r, aten.select.int, (dim, index), {}), obj(g))
    return r


@op("slice_backward")
def _slice_b(g, sizes, dim, start, end, step):
    r = _zeros_like_shape(sizes, g.dtype)
    write(aten_view(r, aten.slice.Tensor, (dim, start, end, step), {}),
          obj(g))
    return r


@op("sort")
def _sort(t, dim=-1, descending=False, stable=False):
    a = obj(t)
    if a.ndim == 0:
        return t, torch.zeros((), dtype=torch.int64)
    b = np.moveaxis(a, dim, -1)
    out = np.empty(b.shape, dtype=object)
    oi = np.empty(b.shape, dtype=object)
    import functools

    def cmp(x, y):
        if bool(x[0] == y[0]):
            return x[1] - y[1]
        lt = bool(x[0] < y[0])
        return (1 if lt else -1) if descending else (-1 if lt else 1)
    for i in np.ndindex(b.shape[:-1]):
        s = sorted([(R(v), k) for k, v in enumerate(b[i])],
                   key=functools.cmp_to_key(cmp))
        for k, (v, j) in enumerate(s):
            out[i + (k, )] = v
            oi[i + (k, )] = j
    return (wrap(np.moveaxis(out, -1, dim), t.dtype),
            wrap(np.moveaxis(oi, -1, dim), torch.int64))


TABLE["argsort"] = lambda t, dim=-1, descending=False, **k: _sort(
    t, dim, descending)[1]


@op("topk")
def _topk(t, k, dim=-1, largest=True, sorted=True):
    v, i = _sort(t, dim, largest)
    return (copy_of(v, v.idx.narrow(dim, 0, k)), i.narrow(dim, 0, k).clone())


# --- copies, casts, creation
@op("clone")
def _clone(t, memory_format=None):
    return copy_of(t, t.idx)


@op("_to_copy")
def _to_copy(t, dtype=None, **k):
    dt = dtype or t.dtype
    return cast(t, dt)


def cast(t, dt):
    a = obj(t)
    if dt == t.dtype:
        return copy_of(t, t.idx)
    out = np.empty(a.size, dtype=object)
    for i, v in enumerate(a.reshape(-1)):
        if dt == torch.bool:
            out[i] = B(v)
        elif dt.is_floating_point:
            out[i] = SR.const(v)
        else:
            v = SR.const(v)
            if t.dtype.is_floating_point:
                if v.c is None:
                    raise Unsupported("float to int cast of a symbol")
                v = SR(Fraction(int(v.c)))
            out[i] = v
    return wrap(out.reshape(a.shape), dt)


@op("copy_")
def _copy_(dst, src, non_blocking=False):
    a = obj(src)
    if src.dtype != dst.dtype:
        c = cast(sym(src), dst.dtype)
        a = obj(c)
    write(dst, a)
    return dst


@op("fill_")
def _fill_(t, v):
    if is_tensor(v):
        v = obj(v).reshape(-1)[0]
    write(t, np.array(SR.const(v) if t.dtype.is_floating_point else v,
                      dtype=object))
    return t


@op("zero_")
def _zero_(t):
    return _fill_(t, 0 if t.dtype != torch.bool else False)


@op("set_")
def _set_(t, src=None, *r):
    if isinstance(src, SymTensor):
        t.buf, t.idx = src.buf, src.idx
        return t
    raise Unsupported("set_")


@op("resize_")
def _resize_(t, size, **k):
    if tuple(t.shape) == tuple(size):
        return t
    raise Unsupported("resize_")


def _like(val):
    def f(t, *a, dtype=None, **k):
        a = list(a)
        v = val
        if val is None:
            v = a.pop(0)
        dt = dtype or t.dtype
        o = np.empty(t.numel(), dtype=object)
        o[:] = SR.const(v) if dt.is_floating_point else v
        return wrap(o.reshape(tuple(t.shape)), dt)
    return f


TABLE["zeros_like"] = _like(0)
TABLE["ones_like"] = _like(1)
TABLE["empty_like"] = _like(0)
TABLE["full_like"] = _like(None)


def _new(val):
    def f(t, size, *a, dtype=None, **k):
        a = list(a)
        v = a.pop(0) if val is None else val
        dt = dtype or t.dtype
        o = np.empty(int(np.prod(size)), dtype=object)
        o[:] = SR.const(v) if dt.is_floating_point else v
        return wrap(o.reshape(tuple(size)), dt)
    return f


TABLE["new_zeros"] = _new(0)
TABLE["new_ones"] = _new(1)
TABLE["new_empty"] = _new(0)
TABLE["new_full"] = _new(None)


@op("new_empty_strided", "empty_strided")
def _nes(t, size, stride, **k):
    return _new(0)(t, size, **k)


@op("lift_fresh", "lift_fresh_copy", "lift")
def _lift(t):
    return t


def _randq(t):
    """Random numbers are free choices; take short rationals."""
    v = (t.detach().to(torch.float64) * 256)
    return (v.floor() + 0.5) / 256


@op("rand_like")
def _rand_like(t, dtype=None, **k):
    return sym(_randq(torch.rand(tuple(t.shape), dtype=dtype or t.dtype)).to(
        dtype or t.dtype))


@op("randn_like")
def _randn_like(t, dtype=None, **k):
    return sym(_randq(torch.randn(tuple(t.shape), dtype=dtype or t.dtype)).to(
        dtype or t.dtype))


@op("uniform_")
def _uniform_(t, a=0., b=1., generator=None):
    r = _randq(torch.rand(tuple(t.shape), dtype=torch.float64))
    write(t, obj(sym(r * (b - a) + a)))
    return t


@op("normal_")
def _normal_(t, mean=0., std=1., generator=None):
    r = _randq(torch.randn(tuple(t.shape), dtype=torch.float64))
    write(t, obj(sym(r * std + mean)))
    return t


@op("native_dropout")
def _dropout(t, p, train):
    if not train or p == 0:
        return t, torch.ones(tuple(t.shape), dtype=torch.bool)
    raise Unsupported("dropout")


# --- movement
VIEW = {"view", "_unsafe_view", "reshape", "t", "transpose", "permute",
        "expand", "select", "slice", "squeeze", "unsqueeze", "detach",
        "alias", "as_strided", "unfold", "diagonal", "split",
        "split_with_sizes", "unbind", "narrow", "chunk", "movedim",
        "_reshape_alias", "view_as", "swapaxes", "unflatten", "flatten",
        "numpy_T", "lift_fresh"}
MOVE = {"cat", "stack", "repeat", "flip", "roll", "index_select",
        "hstack", "vstack", "repeat_interleave", "rot90",
        "expand_copy", "take", "concat", "concatenate", "unfold_copy",
        "pixel_shuffle", "reflection_pad1d", "reflection_pad2d",
        "replication_pad2d", "channel_shuffle", "meshgrid", "tile",
        "combinations", "cartesian_prod", "upsample_nearest2d_vec"}
ZEROFILL = {"tril", "triu", "diag", "diag_embed", "constant_pad_nd",
            "diagonal_scatter", "diag_backward", "diagonal_backward",
            "unfold_backward", "trace_backward", "im2col"}


def aten_view(t, func, args, kwargs):
    r = func(t.idx, *args, **kwargs)
    if isinstance(r, (list, tuple)):
        return type(r)(SymTensor(t.buf, q, t.dtype) for q in r)
    return SymTensor(t.buf, r, t.dtype)


def _tree(x, f):
    if is_tensor(x):
        return f(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_tree(v, f) for v in x)
    return x


def move(func, name, args, kwargs):
    """Pure data movement: run the kernel on element indices."""
    bufs = []
    off = [0]
    dts = []

    def f(t):
        if not t.dtype.is_floating_point and not isinstance(t, SymTensor):
            if name in ("index_select", "take", "repeat_interleave") and \
                    t is not args[0]:
                return t
        if isinstance(t, SymTensor) and name in (
                "index_select", "take") and t is not args[0]:
            return concretize(t)
        dts.append(t)
        s = sym(t)
        r = s.idx + off[0]
        bufs.append(s.buf)
        off[0] += s.buf.size
        return r
    na = _tree(args, f)
    nk = {k: _tree(v, f) for k, v in kwargs.items()}
    buf = np.concatenate(bufs) if bufs else np.empty(0, dtype=object)
    dt = rtype(*dts)
    r = func(*na, **nk)
    return _tree(r, lambda q: _gather_buf(buf, q, dt))


def _gather_buf(buf, q, dt):
    a = buf[_np_idx(q.reshape(-1))] if q.numel() else np.empty(0, object)
    return wrap(np.asarray(a, dtype=object).reshape(tuple(q.shape)), dt)


@op("copy")
def _copy_fn(a, b, *r):
    v = np.broadcast_to(_ro(b), tuple(a.shape)).copy()
    return wrap(v, a.dtype)


@op("block_diag")
def _block_diag(ts):
    bufs = [np.array([SR(Fraction(0))], dtype=object)]
    off = 1
    ids = []
    for t in ts:
        q = sym(t)
        ids.append(q.idx + off)
        off += q.buf.size
        bufs.append(q.buf)
    return _gather_buf(np.concatenate(bufs), torch.block_diag(*ids),
                       rtype(*ts))


def zerofill(func, name, args, kwargs):
    t = sym(args[0])
    fillv = SR(Fraction(0))
    args = list(args)
    if name == "constant_pad_nd":
        if len(args) > 2:
            fillv = SR.const(args[2])
            args[2] = 0
        elif "value" in kwargs:
            fillv = SR.const(kwargs["value"])
            kwargs = dict(kwargs, value=0)
    buf = np.concatenate([np.array([fillv], dtype=object), t.buf])
    r = func(t.idx + 1, *args[1:], **kwargs)
    return _gather_buf(buf, r, t.dtype)


@op("convolution")
def _conv(x, w, b, stride, padding, dilation, transposed, output_padding,
          groups):
    if transposed:
        return _convt(x, w, b, stride, padding, dilation, output_padding,
                      groups)
    X, W = _ro(x), _ro(w)
    nd = len(stride)
    pad = [(0, 0), (0, 0)] + [(p, p) for p in padding]
    Xp = np.pad(X, pad, constant_values=_CONST0) if any(padding) else X
    N, C = X.shape[:2]
    O = W.shape[0]
    ks = W.shape[2:]
    if C != W.shape[1] * groups:
        raise RuntimeError("expected input to have %d channels, but got %d "
                           "channels instead" % (W.shape[1] * groups, C))
    osz = [(Xp.shape[2 + i] - dilation[i] * (ks[i] - 1) - 1) // stride[i] + 1
           for i in range(nd)]
    out = np.empty([N, O] + osz, dtype=object)
    cg, og = C // groups, O // groups
    for n in range(N):
        for o in range(O):
            g = o // og
            for p in np.ndindex(*osz):
                s = _CONST0 if b is None else R(obj(b)[o])
                for c in range(cg):
                    for k in np.ndindex(*ks):
                        q = tuple(p[i] * stride[i] + k[i] * dilation[i]
                                  for i in range(nd))
                        s = s + Xp[(n, g * cg + c) + q] * W[(o, c) + k]
                out[(n, o) + p] = s
    return wrap(out, x.dtype)


def _convt(x, w, b, stride, padding, dilation, output_padding, groups):
    X, W = _ro(x), _ro(w)
    nd = len(stride)
    N, C = X.shape[:2]
    cg, og = C // groups, W.shape[1]
    ks = W.shape[2:]
    if W.shape[0] != C:
        raise RuntimeError("expected input to have %d channels, but got %d "
                           "channels instead" % (W.shape[0], C))
    isz = X.shape[2:]
    osz = [(isz[i] - 1) * stride[i] - 2 * padding[i] + dilation[i] *
           (ks[i] - 1) + output_padding[i] + 1 for i in range(nd)]
    out = np.empty([N, og * groups] + osz, dtype=object)
    for o in range(og * groups):
        out[:, o] = _CONST0 if b is None else R(obj(b)[o])
    for n in range(N):
        for c in range(C):
            g = c // cg
            for p in np.ndindex(*isz):
                v = X[(n, c) + p]
                for k in np.ndindex(*ks):
                    q = tuple(p[i] * stride[i] + k[i] * dilation[i] -
                              padding[i] for i in range(nd))
                    if any(a < 0 or a >= z for a, z in zip(q, osz)):
                        continue
                    for o in range(og):
                        j = (n, g * og + o) + q
                        out[j] = out[j] + v * W[(c, o) + k]
    return wrap(out, x.dtype)


@op("max_pool2d_with_indices")
def _maxpool(x, ks, stride=(), padding=0, dilation=1, ceil_mode=False):
    def two(v):
        v = [v] if isinstance(v, int) else list(v)
        return v * 2 if len(v) == 1 else v
    ks = two(ks)
    stride = two(stride) if stride else ks
    padding, dilation = two(padding), two(dilation)
    if ceil_mode or any(padding):
        raise Unsupported("padded max pool")
    X = _ro(x)
    osz = [(X.shape[-2 + i] - dilation[i] * (ks[i] - 1) - 1) // stride[i] + 1
           for i in range(2)]
    out = np.empty(X.shape[:-2] + tuple(osz), dtype=object)
    for q in np.ndindex(*out.shape):
        vs = [X[q[:-2] + (q[-2] * stride[0] + a * dilation[0],
                          q[-1] * stride[1] + c * dilation[1])]
              for a in range(ks[0]) for c in range(ks[1])]
        out[q] = _maxf(vs)
    return wrap(out, x.dtype), torch.zeros(out.shape, dtype=torch.int64)


@op("native_batch_norm", "_native_batch_norm_legit",
    "_native_batch_norm_legit_no_training")
def _bn(x, w, b, rm, rv, *a):
    raise Unsupported("batch norm")


# ---------------------------------------------------------------------------

_RANDOM_FACTORY = {"rand", "randn", "normal"}
_DECOMP = None


def _decomp_table():
    global _DECOMP
    if _DECOMP is None:
        from torch._decomp import decomposition_table
        _DECOMP = decomposition_table
    return _DECOMP


def _any_sym(args, kwargs):
    f = [False]

    def g(t):
        if isinstance(t, SymTensor):
            f[0] = True
        return t
    _tree(args, g)
    _tree(tuple(kwargs.values()), g)
    return f[0]


def _to_sym_out(r):
    def f(t):
        if t.dtype.is_floating_point and not isinstance(t, SymTensor):
            return sym(t)
        return t
    return _tree(r, f)


_CLEAN = ("layout", "device", "pin_memory", "memory_format", "generator",
          "non_blocking")
_SEEN_OPS = collections.Counter()


def dispatch(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    ns = func._schema.name.split("::")[0]
    if not _any_sym(args, kwargs):
        if name == "_local_scalar_dense" or name.endswith("_") and len(
                args) and is_tensor(args[0]):
            return func(*args, **kwargs)
        r = func(*args, **kwargs)
        if name in _RANDOM_FACTORY and is_tensor(
                r) and r.dtype.is_floating_point:
            r = _randq(r).to(r.dtype)
        if name in VIEW and len(args) and is_tensor(args[0]):
            return r
        return _to_sym_out(r)
    _SEEN_OPS[name] += 1
    if ns == "aten":
        if name in VIEW and isinstance(args[0], SymTensor):
            kk = {k: v for k, v in kwargs.items()}
            return aten_view(args[0], func, args[1:], kk)
        if name in MOVE:
            return move(func, name, args, kwargs)
        if name in ZEROFILL:
            return zerofill(func, name, args, kwargs)
        kk = {k: v for k, v in kwargs.items() if k not in _CLEAN}
        if name in TABLE:
            if "out" in kk:
                out = kk.pop("out")
                r = TABLE[name](*args, **_names(func, kk))
                write(out, obj(r))
                return out
            return TABLE[name](*args, **_names(func, kk))
        # in-place variant of a functional op
        if name.endswith("_") and name[:-1] in TABLE and not name.endswith(
                "__"):
            r = TABLE[name[:-1]](*args, **_names(func, kk))
            write(args[0], obj(r))
            return args[0]
        if name.startswith("_foreach_"):
            return foreach(name, args, kk)
    dt = _decomp_table()
    if func in dt:
        return dt[func](*args, **kwargs)
    try:
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    except (NotImplementedError, RuntimeError):
        pass
    # last resort: everything constant -> run the real kernel
    ok = [True]

    def chk(t):
        if isinstance(t, SymTensor) and not all_const(t):
            ok[0] = False
        return t
    _tree(args, chk)
    _tree(tuple(kwargs.values()), chk)
    if ok[0] and not func._schema.is_mutable:
        cv = lambda t: const_tensor(t) if isinstance(t, SymTensor) else t  # noqa
        return _to_sym_out(func(*_tree(args, cv),
                                **{k: _tree(v, cv)
                                   for k, v in kwargs.items()}))
    raise Unsupported("torch operator %s on symbolic data" % func)


def _names(func, kk):
    return {("min" if k == "min" else k): v for k, v in kk.items()}


def foreach(name, args, kk):
    base = name[len("_foreach_"):]
    inplace = base.endswith("_")
    base = base[:-1] if inplace else base
    lists = [a for a in args if isinstance(a, (list, tuple))]
    n = len(lists[0])
    outs = []
    if base == "zero":
        base = "zero_"
    for i in range(n):
        a = [x[i] if isinstance(x, (list, tuple)) else x for x in args]
        f = {"add": _add, "sub": _sub, "mul": _mul, "div": _div}.get(
            base, TABLE.get(base))
        if f is None:
            raise Unsupported(name)
        r = f(*a, **kk)
        if inplace and base != "zero_":
            write(a[0], obj(r))
        outs.append(r)
    return None if inplace else outs


class _Dispatch(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


# ---------------------------------------------------------------------------
# Python-level entry points

def contains_scalar(x, depth=0):
    if isinstance(x, (SR, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(contains_scalar(v, depth + 1) for v in x)
    return isinstance(x, SymTensor)


def to_obj_array(data):
    """Nested lists / arrays / tensors to an object ndarray."""
    if isinstance(data, SymTensor):
        return obj(data)
    if isinstance(data, torch.Tensor):
        return from_plain(data.detach())
    if isinstance(data, np.ndarray):
        if data.dtype == object:
            flat = np.empty(data.size, dtype=object)
            for i, v in enumerate(np.asarray(data).reshape(-1)):
                if isinstance(v, torch.Tensor):
                    v = obj(v)[()] if v.dim() == 0 else v
                flat[i] = v
            return flat.reshape(data.shape)
        o = np.empty(data.size, dtype=object)
        for i, v in enumerate(data.reshape(-1)):
            o[i] = SR.const(v) if data.dtype.kind == "f" else v.item()
        return o.reshape(data.shape)
    if isinstance(data, (list, tuple)):
        if not len(data):
            return np.empty(0, dtype=object)
        parts = [to_obj_array(v) for v in data]
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("ragged nested sequence")
        out = np.empty((len(parts), ) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    o = np.empty((), dtype=object)
    o[()] = data
    return o


def infer_dtype(a):
    ks = set()
    for v in a.reshape(-1):
        if isinstance(v, (bool, np.bool_, SB)):
            ks.add("b")
        elif isinstance(v, (int, np.integer)):
            ks.add("i")
        else:
            ks.add("f")
    if ks == {"b"}:
        return torch.bool
    if "f" not in ks and ks:
        return torch.int64
    return torch.get_default_dtype()


def make_tensor(data, dtype=None, requires_grad=False, f64_default=False):
    a = to_obj_array(data)
    if dtype is None:
        if isinstance(data, torch.Tensor):
            dtype = data.dtype
        elif isinstance(data, np.ndarray) and data.dtype == object:
            dtype = torch.float64 if infer_dtype(
                a).is_floating_point else infer_dtype(a)
        else:
            dtype = infer_dtype(a)
            if dtype.is_floating_point and f64_default:
                dtype = torch.float64
    if not dtype.is_floating_point and dtype != torch.bool:
        o = np.empty(a.size, dtype=object)
        for i, v in enumerate(a.reshape(-1)):
            o[i] = v if isinstance(v, (SR, SB)) and SR.const(
                v).c is None else int(SR.const(v).c)
        a = o.reshape(a.shape)
    with NoModes():
        r = wrap(a, dtype)
    if requires_grad:
        r.requires_grad_(True)
    return r


class NoModes:
    """Run plain torch inside a handler."""
    def __enter__(self):
        self.a = torch._C.DisableTorchFunction()
        self.a.__enter__()
        self.b = torch.utils._python_dispatch._disable_current_modes()
        self.b.__enter__()
        return self

    def __exit__(self, *e):
        self.b.__exit__(*e)
        self.a.__exit__(*e)


def scalar_torch_function(func, args, kwargs):
    def cv(x):
        if isinstance(x, (SR, SB)):
            return scalar_tensor(x)
        if isinstance(x, (list, tuple)):
            return type(x)(cv(v) for v in x)
        return x
    if func in _SIZED:
        def ix(x):
            if isinstance(x, (SR, SB)):
                return x.__index__()
            if isinstance(x, (list, tuple)):
                return type(x)(ix(v) for v in x)
            return x
        if func is torch.full:
            a = list(args)
            if a:
                a[0] = ix(a[0])
            args, kwargs = tuple(a), {k: ix(v) if k == "size" else v
                                      for k, v in kwargs.items()}
        else:
            return func(*ix(tuple(args)),
                        **{k: ix(v) for k, v in kwargs.items()})
    return func(*cv(tuple(args)), **{k: cv(v) for k, v in kwargs.items()})


_SIZED = {torch.empty, torch.zeros, torch.ones, torch.full, torch.eye,
          torch.rand, torch.randn}


def scalar_tensor(x):
    with NoModes():
        return wrap(np.array(x, dtype=object), torch.bool if isinstance(
            x, SB) else torch.get_default_dtype())


def sym_to_numpy(t):
    from symx.npshim import SymArray
    a = obj(t)
    if isinstance(a, np.ndarray):
        return a.view(SymArray)
    return a


def t_item(t):
    if not isinstance(t, SymTensor):
        return None
    if t.numel() != 1:
        raise RuntimeError(
            "a Tensor with %d elements cannot be converted to Scalar" %
            t.numel())
    v = obj(t).reshape(-1)[0]
    if t.dtype.is_floating_point:
        return R(v)
    if isinstance(v, SR) and v.c is not None:
        return int(v.c)
    return v


def t_tolist(t):
    def rec(a):
        if not isinstance(a, np.ndarray):
            return a
        if a.ndim == 0:
            return a[()]
        return [rec(a[i]) for i in range(a.shape[0])]
    return rec(obj(t))


_T = torch.Tensor
_FACTORY = {torch.tensor, torch.as_tensor, torch.asarray}


class _Func(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        h = HOOKS.get(func)
        if h is not None:
            r = h(args, kwargs)
            if r is not NotImplemented:
                return r
        return func(*args, **kwargs)


def _h_tensor(args, kwargs):
    data = args[0] if args else kwargs.get("data", kwargs.get("obj"))
    if data is None:
        return NotImplemented
    if isinstance(data, (SR, SB)) or contains_scalar(data):
        return make_tensor(data, kwargs.get("dtype"),
                           kwargs.get("requires_grad", False))
    return NotImplemented


def _h_as_tensor(args, kwargs):
    data = args[0]
    if isinstance(data, SymTensor):
        dt = kwargs.get("dtype")
        return data if dt in (None, data.dtype) else data.to(dt)
    if isinstance(data, np.ndarray) and data.dtype == object:
        return _h_from_numpy(args, kwargs)
    return _h_tensor(args, kwargs)


def _h_from_numpy(args, kwargs):
    a = args[0]
    if not isinstance(a, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    if a.dtype == object:
        r = make_tensor(a, kwargs.get("dtype"))
        return r
    if a.dtype.kind == "f":
        return make_tensor(torch.tensor(np.array(a)), kwargs.get("dtype"))
    return NotImplemented


def _h_bool(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        if t.numel() != 1:
            raise RuntimeError("Boolean value of Tensor with more than one "
                               "value is ambiguous")
        return bool(B(obj(t).reshape(-1)[0]))
    return NotImplemented


def _h_item(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        return t_item(t)
    return NotImplemented


def _h_tolist(args, kwargs):
    return t_tolist(args[0]) if isinstance(args[0], SymTensor) else \
        NotImplemented


def _h_numpy(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        if t.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires "
                               "grad. Use tensor.detach().numpy() instead.")
        return sym_to_numpy(t)
    return NotImplemented


def _h_array(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        return sym_to_numpy(t)
    return NotImplemented


def _h_float(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        return float(t_item(t))
    return NotImplemented


def _h_int(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        v = t_item(t)
        if isinstance(v, SB):
            return int(bool(v))
        if isinstance(v, SR) and v.c is None and \
                not t.dtype.is_floating_point:
            return concretize_int(v)
        return int(v)
    return NotImplemented


def _h_setitem(args, kwargs):
    t, k, v = args
    if isinstance(v, (SR, SB)):
        with torch.no_grad():
            pass
        return _T.__setitem__(t, k, scalar_tensor_as(v, t.dtype))
    if isinstance(v, np.ndarray) and v.dtype == object:
        return _T.__setitem__(t, k, make_tensor(v, t.dtype))
    return NotImplemented


def scalar_tensor_as(v, dt):
    with NoModes():
        return wrap(np.array(v, dtype=object), dt)


def _h_data_set(args, kwargs):
    t, v = args
    if isinstance(t, SymTensor):
        with NoModes():
            s = sym(v.detach() if not isinstance(v, SymTensor) else v)
        if tuple(s.shape) == tuple(t.shape) and s.dtype == t.dtype:
            t.buf, t.idx = s.buf, s.idx
            return None
        with NoModes():
            n = SymTensor(s.buf, s.idx, s.dtype)
            rg = t.requires_grad
            if isinstance(t, torch.nn.Parameter):
                n = torch.nn.Parameter(n, rg)
            elif rg:
                n.requires_grad_(True)
        torch.utils.swap_tensors(t, n)
        return None
    if isinstance(v, SymTensor):
        if all_const(v):
            with NoModes():
                p = const_tensor(v)
            _T.data.__set__(t, p)
            return None
        raise Unsupported("tensor.data assignment into an outside tensor")
    return NotImplemented


def _h_full(args, kwargs):
    kw = dict(kwargs)
    size = args[0] if args else kw.pop("size")
    v = args[1] if len(args) > 1 else kw.pop("fill_value")
    if isinstance(v, (SR, SB)):
        dt = kw.get("dtype") or torch.get_default_dtype()
        if isinstance(size, int):
            size = (size, )
        o = np.empty(int(np.prod(size)), dtype=object)
        o[:] = v
        with NoModes():
            return wrap(o.reshape(tuple(size)), dt)
    return NotImplemented


def _h_fill(args, kwargs):
    t, v = args
    if isinstance(v, (SR, SB)):
        return t.copy_(scalar_tensor_as(v, t.dtype).expand(t.shape))
    return NotImplemented


def _h_deepcopy(args, kwargs):
    t, memo = args
    if isinstance(t, SymTensor):
        if id(t) in memo:
            return memo[id(t)]
        with NoModes():
            c = copy_of(t, t.idx)
        if not isinstance(c, SymTensor):
            c = sym(c)
        if isinstance(t, torch.nn.Parameter):
            c = torch.nn.Parameter(c, t.requires_grad)
        elif t.requires_grad:
            c.requires_grad_(True)
        memo[id(t)] = c
        return c
    return NotImplemented


def _h_repr(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        return SymTensor.__repr__(t)
    return NotImplemented


def _h_format(args, kwargs):
    t = args[0]
    if isinstance(t, SymTensor):
        if t.numel() == 1 and t.dim() == 0 and t.dtype.is_floating_point:
            return format(t_item(t), args[1])
        return SymTensor.__repr__(t)
    return NotImplemented


def _h_norm(args, kwargs):
    t = args[0]
    p = args[1] if len(args) > 1 else kwargs.get("p", "fro")
    if p == "fro" or p is None:
        p = 2
    rest = {k: v for k, v in kwargs.items() if k in ("dim", "keepdim")}
    if len(args) > 2:
        rest["dim"] = args[2]
    return torch.linalg.vector_norm(t, p, **rest)


def _h_isclose_all(args, kwargs):
    a, b = args[0], args[1]
    if isinstance(a, SymTensor) or isinstance(b, SymTensor):
        return bool(torch.all(torch.isclose(a, b, *args[2:], **kwargs)))
    return NotImplemented


def _h_linear(args, kwargs):
    x, w = args[0], args[1] if len(args) > 1 else kwargs["weight"]
    b = args[2] if len(args) > 2 else kwargs.get("bias")
    if b is None and isinstance(x, _T) and x.dim() == 1:
        if x.shape[0] != w.shape[1]:
            raise RuntimeError("size mismatch in linear")
        return w @ x
    return NotImplemented


def _h_matmul(args, kwargs):
    if len(args) == 2:
        a, b = args
        if isinstance(a, _T) and isinstance(b, _T) and a.dim() == 1 and \
                b.dim() == 2 and (isinstance(a, SymTensor) or
                                  isinstance(b, SymTensor)):
            return torch.mm(a.unsqueeze(0), b).squeeze(0)
    return NotImplemented


def _h_rmatmul(args, kwargs):
    return _h_matmul((args[1], args[0]), kwargs)


def _h_contains(args, kwargs):
    t, v = args
    return bool((t == v).any())


HOOKS = {
    torch.tensor: _h_tensor,
    torch.as_tensor: _h_as_tensor,
    torch.asarray: _h_as_tensor,
    torch.from_numpy: _h_from_numpy,
    torch.full: _h_full,
    torch.nn.functional.linear: _h_linear,
    torch.matmul: _h_matmul,
    _T.matmul: _h_matmul,
    _T.__matmul__: _h_matmul,
    _T.__rmatmul__: _h_rmatmul,
    torch.norm: _h_norm,
    _T.norm: _h_norm,
    torch.allclose: _h_isclose_all,
    _T.allclose: _h_isclose_all,
    _T.__bool__: _h_bool,
    _T.item: _h_item,
    _T.tolist: _h_tolist,
    _T.numpy: _h_numpy,
    _T.__array__: _h_array,
    _T.__float__: _h_float,
    _T.__int__: _h_int,
    _T.__index__: _h_int,
    _T.__setitem__: _h_setitem,
    _T.data.__set__: _h_data_set,
    _T.fill_: _h_fill,
    _T.__deepcopy__: _h_deepcopy,
    _T.__repr__: _h_repr,
    _T.__format__: _h_format,
    _T.__contains__: _h_contains,
}


class SymMode:
    """Context manager: torch computes symbolically."""
    def __enter__(self):
        self.d = _Dispatch()
        self.f = _Func()
        self.sw = torch.__future__.get_swap_module_params_on_conversion()
        torch.__future__.set_swap_module_params_on_conversion(True)
        self.d.__enter__()
        self.f.__enter__()
        return self

    def __exit__(self, *e):
        torch.__future__.set_swap_module_params_on_conversion(self.sw)
        self.f.__exit__(*e)
        self.d.__exit__(*e)
