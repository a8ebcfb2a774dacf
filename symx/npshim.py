"""numpy over symbolic scalars: an object-array subclass plus a stand-in for
the `np` module of the code under check."""
import math
import types
from fractions import Fraction

import numpy as np
import torch

from symx import num, tensor as st
from symx.num import SR, SB, Unsupported, band, bor, bnot, ite, smax, smin

_Z = SR(Fraction(0))
_O = SR(Fraction(1))


class SymArray(np.ndarray):
    """Object ndarray of SR/SB/int/bool."""
    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        args = _down(args)
        kwargs = {k: _down(v) for k, v in kwargs.items()}
        return up(func(*args, **kwargs))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return do_ufunc(ufunc, method, inputs, out, kw)

    def __getitem__(self, k):
        k = fix_index(k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        k = fix_index(k)
        if isinstance(v, torch.Tensor):
            v = st.obj(v)
            if v.ndim == 0:
                v = v[()]
        elif isinstance(v, (list, tuple)):
            v = to_obj(v)
        if isinstance(v, float):
            v = SR.const(v)
        elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
            v = up(v)
        np.ndarray.__setitem__(self, k, v)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims, lambda v: band(*[_b(x) for x in v]))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims, lambda v: bor(*[_b(x) for x in v]))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims, st._maxf)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims, st._minf)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims,
                    lambda v: st._sumf([st.R(x) for x in v]) / len(v))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims,
                    lambda v: st._sumf([st.R(x) for x in v]))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims,
                    lambda v: st._prodf([st.R(x) for x in v]))

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        def f(v):
            m = st._sumf(v) / len(v)
            return (st._sumf([(x - m) * (x - m) for x in v]) /
                    (len(v) - ddof)).sqrt()
        return _red(self, axis, keepdims, f)

    def argmax(self, axis=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims,
                    lambda v: _ival(st._argbest([st.R(x) for x in v],
                                                True)[1]))

    def argmin(self, axis=None, out=None, keepdims=False, **k):
        return _red(self, axis, keepdims,
                    lambda v: _ival(st._argbest([st.R(x) for x in v],
                                                False)[1]))

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = _ufo(smax, 2)(r, min)
        if max is not None:
            r = _ufo(smin, 2)(r, max)
        return r

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind == "f":
            return up(np.array([SR.const(v) for v in self.reshape(-1)] +
                               [None], dtype=object)[:-1].reshape(self.shape))
        if dt.kind == "b":
            vals = [bool(v) for v in self.reshape(-1)]
            return np.array(vals, dtype=bool).reshape(self.shape)
        if dt.kind in "iu":
            vals = []
            for v in self.reshape(-1):
                v = SR.const(v)
                if v.c is None:
                    raise Unsupported("integer cast of a symbolic value")
                vals.append(int(v.c))
            return np.array(vals, dtype=dt).reshape(self.shape)
        return np.ndarray.astype(self, dtype, *a, **k)

    def item(self, *a):
        return np.asarray(self).item(*a)

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round with decimals")
        return _ufo(lambda x: SR.const(x).rint(), 1)(self)

    def __bool__(self):
        if self.size == 1:
            return bool(np.asarray(self).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(np.asarray(self).reshape(-1)[0])

    def __repr__(self):
        return "SymArray(%s)" % (np.asarray(self).tolist(), )

    def __deepcopy__(self, memo):
        return self.copy()


def _b(x):
    return (x != 0) if isinstance(x, SR) else x


def _ival(v):
    return int(v.c) if v.c is not None else st.concretize_int(v)


def fix_index(k):
    if isinstance(k, SR):
        return int(k.__index__())
    if isinstance(k, torch.Tensor):
        k = st.concretize(k)
        return k.numpy() if not isinstance(k, st.SymTensor) else k
    if isinstance(k, np.ndarray) and k.dtype == object:
        flat = [v for v in np.asarray(k).reshape(-1)]
        if all(isinstance(v, (bool, np.bool_, SB)) for v in flat):
            return np.array([bool(v) for v in flat],
                            dtype=bool).reshape(k.shape)
        return np.array([int(v) for v in flat],
                        dtype=np.int64).reshape(k.shape)
    if isinstance(k, tuple):
        return tuple(fix_index(v) for v in k)
    if isinstance(k, list) and any(isinstance(v, SB) for v in k):
        return [bool(v) for v in k]
    return k


def _down(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(_down(v) for v in x)
    return x


def up(x):
    """Float arrays become object arrays of constants; object arrays get
    the symbolic subclass."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SymArray)
        if x.dtype.kind == "f":
            o = np.empty(x.size, dtype=object)
            for i, v in enumerate(x.reshape(-1)):
                o[i] = SR.const(float(v))
            return o.reshape(x.shape).view(SymArray)
        return x
    if isinstance(x, (np.floating, )):
        return SR.const(float(x))
    if isinstance(x, (list, tuple)):
        return type(x)(up(v) for v in x)
    return x


def to_obj(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (list, tuple)) and any(
            isinstance(q, st.SymTensor) and q.ndim for q in x):
        return [to_obj(q) if isinstance(q, st.SymTensor) or np.ndim(q)
                else to_obj([q]) for q in x] if len(
            {tuple(np.shape(q)) if not isinstance(q, torch.Tensor) else
             tuple(q.shape) for q in x}) > 1 else to_obj(
            [to_obj(q) for q in x])
    a = st.to_obj_array(x)
    kinds = st.infer_dtype(a)
    if a.size == 0:
        return a.view(SymArray)
    if kinds.is_floating_point:
        o = np.empty(a.size, dtype=object)
        for i, v in enumerate(a.reshape(-1)):
            o[i] = SR.const(v) if not isinstance(v, (SR, str)) and \
                v is not None and not callable(v) else v
        a = o.reshape(a.shape)
    return a.view(SymArray)


def is_symbolic(x):
    if isinstance(x, (SR, SB, SymArray, st.SymTensor)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(v) for v in x)
    return False


def _red(a, axis, keepdims, f):
    x = np.asarray(a).view(np.ndarray)
    if axis is None:
        vs = list(x.reshape(-1))
        r = f(vs)
        if keepdims:
            o = np.empty((1, ) * x.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return o.view(SymArray)
        return r
    ax = (axis, ) if isinstance(axis, int) else tuple(axis)
    ax = tuple(d % x.ndim for d in ax)
    rest = [d for d in range(x.ndim) if d not in ax]
    t = x.transpose(rest + list(ax))
    rs = tuple(x.shape[d] for d in rest)
    out = np.empty(rs, dtype=object)
    for i in np.ndindex(rs):
        out[i] = f(list(t[i].reshape(-1)))
    if keepdims:
        out = out.reshape(tuple(1 if d in ax else x.shape[d]
                                for d in range(x.ndim)))
    if out.ndim == 0:
        return out[()]
    if out.size and all(isinstance(v, (int, np.integer)) and not isinstance(
            v, bool) for v in out.reshape(-1)):
        return out.astype(np.int64)
    return out.view(SymArray)


def _ufo(f, n):
    def run(*args, **kw):
        arrs = []
        for a in args[:n]:
            if isinstance(a, torch.Tensor):
                a = st.obj(a)
            elif isinstance(a, (list, tuple)):
                a = to_obj(a)
            elif not isinstance(a, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = a
                a = o
            arrs.append(np.asarray(a))
        arrs = np.broadcast_arrays(*[x.view(np.ndarray) for x in arrs])
        out = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            vs = []
            for a in arrs:
                v = a[i]
                if isinstance(v, (np.floating, float)):
                    v = SR.const(float(v))
                elif isinstance(v, np.generic):
                    v = v.item()
                vs.append(v)
            out[i] = f(*vs)
        o = kw.get("out")
        if isinstance(o, tuple):
            o = o[0]
        if o is not None:
            o[...] = out.view(SymArray)
            return o
        if out.ndim == 0:
            return out[()]
        return out.view(SymArray)
    return run


def S(f):
    return lambda x: f(SR.const(x))


def _np_isinf(x):
    x = SR.const(x)
    return x.c is not None and isinstance(x.c, float) and x.c == x.c


UF = {
    np.add: (lambda x, y: bor(x, y) if isinstance(x, (bool, SB)) and
             isinstance(y, (bool, SB)) else st.R(x) + st.R(y), 2),
    np.subtract: (lambda x, y: st.R(x) - st.R(y), 2),
    np.multiply: (lambda x, y: band(x, y) if isinstance(x, (bool, SB)) and
                  isinstance(y, (bool, SB)) else st.R(x) * st.R(y), 2),
    np.divide: (lambda x, y: st.R(x) / st.R(y), 2),
    np.power: (lambda x, y: st.R(x)**y, 2),
    np.remainder: (lambda x, y: st.R(x) % st.R(y), 2),
    np.floor_divide: (lambda x, y: (st.R(x) / st.R(y)).floor(), 2),
    np.negative: (S(lambda x: -x), 1),
    np.positive: (S(lambda x: x), 1),
    np.absolute: (S(abs), 1),
    np.fabs: (S(abs), 1),
    np.sqrt: (S(SR.sqrt), 1),
    np.square: (S(lambda x: x * x), 1),
    np.sin: (S(SR.sin), 1),
    np.cos: (S(SR.cos), 1),
    np.tan: (S(SR.tan), 1),
    np.exp: (S(SR.exp), 1),
    np.log: (S(SR.log), 1),
    np.log1p: (S(SR.log1p), 1),
    np.tanh: (S(SR.tanh), 1),
    np.arctan: (S(SR.arctan), 1),
    np.arcsin: (S(SR.arcsin), 1),
    np.arccos: (S(SR.arccos), 1),
    np.arctan2: (lambda y, x: SR.const(math.atan2(float(y), float(x))), 2),
    np.sign: (S(SR.sign), 1),
    np.floor: (S(SR.floor), 1),
    np.ceil: (S(SR.ceil), 1),
    np.rint: (S(SR.rint), 1),
    np.reciprocal: (S(lambda x: _O / x), 1),
    np.deg2rad: (S(lambda x: x * SR.const(math.pi / 180)), 1),
    np.rad2deg: (S(lambda x: x * SR.const(180 / math.pi)), 1),
    np.maximum: (smax, 2),
    np.minimum: (smin, 2),
    np.fmax: (smax, 2),
    np.fmin: (smin, 2),
    np.less: (lambda x, y: st.R(x) < st.R(y), 2),
    np.less_equal: (lambda x, y: st.R(x) <= st.R(y), 2),
    np.greater: (lambda x, y: st.R(x) > st.R(y), 2),
    np.greater_equal: (lambda x, y: st.R(x) >= st.R(y), 2),
    np.equal: (lambda x, y: st._beq(x, y) if not isinstance(
        x, str) else x == y, 2),
    np.not_equal: (lambda x, y: bnot(st._beq(x, y)), 2),
    np.logical_and: (lambda x, y: band(_b(x), _b(y)), 2),
    np.logical_or: (lambda x, y: bor(_b(x), _b(y)), 2),
    np.logical_not: (lambda x: bnot(_b(x)), 1),
    np.bitwise_and: (lambda x, y: band(_b(x), _b(y)), 2),
    np.bitwise_or: (lambda x, y: bor(_b(x), _b(y)), 2),
    np.invert: (lambda x: bnot(_b(x)), 1),
    np.logical_xor: (lambda x, y: bor(band(_b(x), bnot(_b(y))),
                                      band(bnot(_b(x)), _b(y))), 2),
    np.isinf: (_np_isinf, 1),
    np.isfinite: (lambda x: not isinstance(SR.const(x).c, float), 1),
    np.isnan: (lambda x: isinstance(SR.const(x).c, float) and
               SR.const(x).c != SR.const(x).c, 1),
    np.conjugate: (lambda x: x, 1),
}
UFO = {k: _ufo(*v) for k, v in UF.items()}


def _boolres(r):
    """All-concrete bool results become plain bool arrays."""
    if isinstance(r, np.ndarray) and r.dtype == object and r.size and all(
            isinstance(v, (bool, np.bool_)) for v in r.reshape(-1)):
        return np.asarray(r).view(np.ndarray).astype(bool)
    return r


def matmul(a, b):
    a, b = np.asarray(to_obj(a)), np.asarray(to_obj(b))
    a, b = a.view(np.ndarray), b.view(np.ndarray)
    va, vb = a.ndim == 1, b.ndim == 1
    A = a.reshape(1, -1) if va else a
    B = b.reshape(-1, 1) if vb else b
    if A.ndim == 2 and B.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError("matmul: mismatch in its core dimension")
        r = st._matmul2(_lift(A), _lift(B))
    else:
        sh = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A = np.broadcast_to(A, sh + A.shape[-2:])
        B = np.broadcast_to(B, sh + B.shape[-2:])
        r = np.empty(sh + (A.shape[-2], B.shape[-1]), dtype=object)
        for i in np.ndindex(sh):
            r[i] = st._matmul2(_lift(A[i]), _lift(B[i]))
    if va:
        r = r[..., 0, :]
    if vb:
        r = r[..., 0]
    if r.ndim == 0:
        return r[()]
    return r.view(SymArray)


def _lift(a):
    o = np.empty(a.size, dtype=object)
    for i, v in enumerate(a.reshape(-1)):
        o[i] = SR.const(v)
    return o.reshape(a.shape)


def do_ufunc(ufunc, method, inputs, out, kw):
    where = kw.get("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    if ufunc is np.matmul and method == "__call__":
        r = matmul(*inputs)
        if out is not None:
            out[0][...] = r
            return out[0]
        return r
    if ufunc in UFO:
        if method == "__call__":
            return _boolres(UFO[ufunc](*inputs, out=out))
        f = UF[ufunc][0]
        if method == "reduce":
            a = to_obj(inputs[0])
            ax = kw.get("axis", 0)

            def red(vs):
                if ufunc is np.add:
                    return st._sumf([st.R(v) for v in vs])
                if ufunc is np.logical_and:
                    return band(*[_b(v) for v in vs])
                if ufunc is np.logical_or:
                    return bor(*[_b(v) for v in vs])
                r = vs[0]
                for v in vs[1:]:
                    r = f(r, v)
                return r
            return _red(a, ax, kw.get("keepdims", False), red)
        if method == "accumulate":
            a = np.asarray(to_obj(inputs[0])).view(np.ndarray)
            ax = kw.get("axis", 0)
            b = np.moveaxis(a, ax, -1)
            o = np.empty(b.shape, dtype=object)
            for i in np.ndindex(b.shape[:-1]):
                s = None
                for k in range(b.shape[-1]):
                    v = st.R(b[i + (k, )])
                    s = v if s is None else f(s, v)
                    o[i + (k, )] = s
            return np.moveaxis(o, -1, ax).view(SymArray)
        if method == "outer":
            a, b = to_obj(inputs[0]), to_obj(inputs[1])
            return UFO[ufunc](np.asarray(a).reshape(
                a.shape + (1, ) * b.ndim), b)
        if method == "at":
            a, idx, b = inputs
            for j, i in enumerate(np.asarray(idx).reshape(-1)):
                bv = b[j] if isinstance(b, np.ndarray) and b.ndim else b
                a[i] = f(a[i], bv)
            return None
    raise Unsupported("numpy ufunc %s.%s" % (ufunc.__name__, method))


# ---------------------------------------------------------------------------
# functions

def _norm(x, ord=None, axis=None, keepdims=False):
    a = to_obj(x)
    if axis is None and a.ndim == 2 and ord not in (None, "fro"):
        raise Unsupported("matrix norm")
    if ord in (None, 2, "fro"):
        f = lambda v: st._sumf([st.R(q) * st.R(q) for q in v]).sqrt()  # noqa
    elif ord == 1:
        f = lambda v: st._sumf([abs(st.R(q)) for q in v])  # noqa
    elif ord == np.inf:
        f = lambda v: st._maxf([abs(st.R(q)) for q in v])  # noqa
    else:
        raise Unsupported("norm order")
    return _red(a, axis, keepdims, f)


def _solve(A, b):
    A, B = np.asarray(to_obj(A)), np.asarray(to_obj(b))
    A, B = _lift(A.view(np.ndarray)), _lift(B.view(np.ndarray))
    try:
        if B.ndim == 1:
            return st._solve_exact(A, B.reshape(-1, 1))[:, 0].view(SymArray)
        return st._solve_exact(A, B).view(SymArray)
    except torch.linalg.LinAlgError as e:
        raise np.linalg.LinAlgError(str(e))


def _inv(A):
    a = to_obj(A)
    return _solve(a, np.eye(a.shape[0]))


def _det(A):
    a = np.asarray(to_obj(A)).view(np.ndarray)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    s = _Z
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = a[0, j] * _det(m)
        s = s + t if j % 2 == 0 else s - t
    return s


def _tofloat(x):
    a = np.asarray(to_obj(x)).view(np.ndarray)
    return np.array([float(v) for v in a.reshape(-1)]).reshape(a.shape)


def _conc(f):
    def run(*args, **kw):
        args = [_tofloat(a) if isinstance(a, (np.ndarray, st.SymTensor))
                else a for a in args]
        r = f(*args, **kw)
        if isinstance(r, tuple) and hasattr(r, "_fields"):
            return tuple(up(v) for v in r)
        return up(r)
    return run


def _where(c, x=None, y=None):
    if x is None:
        c = fix_index(c if isinstance(c, np.ndarray) else to_obj(c))
        return np.where(c)
    return _ufo(lambda k, a, b: ite(_b(k), a, b), 3)(c, x, y)


def _nonzero(a):
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array([bool(v) for v in a.reshape(-1)],
                     dtype=bool).reshape(a.shape)
    return np.nonzero(a)


def _cross(a, b, *r, **k):
    a, b = to_obj(a), to_obj(b)
    return st.obj(st._lcross(st.wrap(np.asarray(a), torch.float64),
                             st.wrap(np.asarray(b), torch.float64))).view(
                                 SymArray)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = SR.const(rtol), SR.const(atol)
    return _boolres(_ufo(lambda x, y: abs(st.R(x) - st.R(y)) <= at + rt *
                         abs(st.R(y)), 2)(a, b))


def _all(a, axis=None, out=None, keepdims=False, **k):
    return to_obj(a).all(axis, keepdims=keepdims)


def _any(a, axis=None, out=None, keepdims=False, **k):
    return to_obj(a).any(axis, keepdims=keepdims)


def _allclose(a, b, **k):
    return bool(_all(_isclose(a, b, **k)))


def _sort(a, axis=-1, **k):
    return st.obj(st._sort(st.wrap(np.asarray(to_obj(a)), torch.float64),
                           axis)[0]).view(SymArray)


def _argsort(a, axis=-1, **k):
    r = st._sort(st.wrap(np.asarray(to_obj(a)), torch.float64), axis)[1]
    return st.concretize(r).numpy()


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    if dtype is not None and np.dtype(dtype).kind in "iubUS":
        if is_symbolic(x):
            return to_obj(x).astype(dtype)
        return np.array(x, dtype=dtype)
    try:
        if not is_symbolic(x) and not _has_tensor(x):
            r = np.array(x, ndmin=ndmin) if dtype is None else np.array(
                x, dtype=dtype, ndmin=ndmin)
            return up(r)
    except (TypeError, ValueError):
        pass
    a = st.to_obj_array(x)
    a = np.array(a, dtype=object, ndmin=ndmin)
    if a.size and st.infer_dtype(a) == torch.int64:
        return np.array([int(v) for v in a.reshape(-1)]).reshape(a.shape)
    if a.size and all(isinstance(v, (bool, np.bool_)) for v in a.reshape(-1)):
        return a.astype(bool)
    return to_obj(a)


def _has_tensor(x):
    if isinstance(x, torch.Tensor):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_tensor(v) for v in x)
    return False


def _asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return up(x)
    return _array(x, dtype)


def _mk(f):
    def run(*a, **k):
        dt = k.get("dtype")
        k.pop("like", None)
        r = f(*a, **k)
        if dt is not None and np.dtype(dt).kind != "f" and \
                np.dtype(dt) != np.uint8:
            return r
        if r.dtype == np.uint8:
            r = r.astype(float)
        return up(r)
    return run


def _full(shape, v, dtype=None, **k):
    if isinstance(v, (SR, SB, np.ndarray, st.SymTensor)):
        o = np.empty(shape, dtype=object)
        if isinstance(v, st.SymTensor):
            v = st.obj(v)
        o[...] = v
        return o.view(SymArray)
    return up(np.full(shape, v, dtype))


def _like(val):
    def run(a, *r, dtype=None, shape=None, **k):
        v = r[0] if val is None else val
        a = np.asarray(st.obj(a) if isinstance(a, torch.Tensor) else a)
        sh = a.shape if shape is None else shape
        if dtype is not None and np.dtype(dtype).kind != "f":
            return np.full(sh, v, dtype)
        if a.dtype.kind in "iub" and dtype is None:
            return np.full(sh, v, a.dtype)
        return _full(sh, SR.const(v))
    return run


def _linspace(a, b, num=50, endpoint=True, **k):
    a, b, n = [st.to_obj_array(v)[()] if isinstance(v, torch.Tensor) else v
               for v in (a, b, num)]
    n = int(n)
    if is_symbolic(a) or is_symbolic(b):
        d = n - 1 if endpoint else n
        return to_obj([SR.const(a) + (SR.const(b) - SR.const(a)) * SR(
            Fraction(i, max(d, 1))) for i in range(n)])
    a, b = SR.const(a), SR.const(b)
    return _linspace_c(a, b, n, endpoint)


def _linspace_c(a, b, n, endpoint):
    d = max(n - 1 if endpoint else n, 1)
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = a + (b - a) * SR(Fraction(i, d))
    return o.view(SymArray)


def _arange(*a, **k):
    if any(isinstance(v, SR) for v in a):
        a = [float(v) for v in a]
    r = up(np.arange(*a, **k))
    return r.view(IdxArray) if r.dtype.kind == "i" else r


class IdxArray(np.ndarray):
    """Whole numbers, which may be selected by symbolic conditions."""
    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, fix_index(k))


def _cumsum(a, axis=None, **k):
    a = to_obj(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return do_ufunc(np.add, "accumulate", (a, ), None, {"axis": axis})


def _round(a, decimals=0, **k):
    if isinstance(a, np.ndarray):
        return up(a).round(decimals)
    return SR.const(a).rint()


def _dot(a, b):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    return matmul(a, b)


def _outer(a, b):
    a, b = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
    return UFO[np.multiply](a[:, None], b[None, :])


def _trace(a):
    a = to_obj(a)
    return st._sumf([a[i, i] for i in range(min(a.shape))])


def _cholesky(A):
    a = to_obj(A)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError("must be square")
    L = np.empty((n, n), dtype=object)
    L[...] = SR.const(0.)
    for j in range(n):
        d = SR.const(a[j, j])
        for k in range(j):
            d = d - L[j, k] * L[j, k]
        if not bool(d > 0):
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = d.sqrt()
        for i in range(j + 1, n):
            v = SR.const(a[i, j])
            for k in range(j):
                v = v - L[i, k] * L[j, k]
            L[i, j] = v / L[j, j]
    return L.view(SymArray)


# a harness may supply the (U, S, V) a decomposition returns
SVD = [None]


def _svd(a, *r, **k):
    if SVD[0] is not None:
        return SVD[0](a, *r, **k)
    return _conc(np.linalg.svd)(a, *r, **k)


def _isscalar(x):
    return isinstance(x, (SR, SB)) or np.isscalar(x)


def _random(name):
    f = getattr(np.random, name)

    def run(*a, **k):
        a = [_tofloat(v) if isinstance(v, np.ndarray) and v.dtype == object
             else float(v) if isinstance(v, SR) else v for v in a]
        k = {q: _tofloat(v) if isinstance(v, np.ndarray) and v.dtype == object
             else float(v) if isinstance(v, SR) else v for q, v in k.items()}
        r = f(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            r = np.round(r * 1024) / 1024
        elif isinstance(r, float):
            return SR.const(round(r * 1024) / 1024)
        return up(r)
    return run


def _method(name):
    return lambda a, *r, **k: getattr(to_obj(a), name)(*r, **k)


FUNCS = {
    np.linalg.norm: _norm, np.linalg.solve: _solve, np.linalg.inv: _inv,
    np.linalg.det: _det, np.linalg.svd: _svd,
    np.linalg.eig: _conc(np.linalg.eig), np.linalg.eigh:
    _conc(np.linalg.eigh), np.linalg.cholesky: _cholesky,
    np.linalg.eigvals: _conc(np.linalg.eigvals),
    np.linalg.cond: _conc(np.linalg.cond),
    np.linalg.matrix_rank: _conc(np.linalg.matrix_rank),
    np.linalg.pinv: _conc(np.linalg.pinv),
    np.linalg.lstsq: _conc(np.linalg.lstsq),
    np.where: _where, np.nonzero: _nonzero, np.flatnonzero:
    lambda a: _nonzero(np.asarray(a).reshape(-1))[0],
    np.argwhere: lambda a: np.transpose(_nonzero(a)),
    np.cross: _cross, np.isclose: _isclose, np.allclose: _allclose,
    np.all: _all, np.any: _any, np.sort: _sort, np.argsort: _argsort,
    np.max: _method("max"), np.min: _method("min"),
    np.amax: _method("max"), np.amin: _method("min"),
    np.sum: _method("sum"), np.mean: _method("mean"),
    np.prod: _method("prod"), np.std: _method("std"),
    np.argmax: _method("argmax"), np.argmin: _method("argmin"),
    np.clip: _method("clip"), np.cumsum: _cumsum, np.round: _round,
    np.around: _round, np.dot: _dot, np.outer: _outer, np.trace: _trace,
    np.inner: lambda a, b: matmul(a, np.swapaxes(to_obj(b), -1, -2)
                                  if np.ndim(b) > 1 else b),
    np.vdot: lambda a, b: matmul(to_obj(a).reshape(-1),
                                 to_obj(b).reshape(-1)),
    np.zeros_like: _like(0.), np.ones_like: _like(1.),
    np.empty_like: _like(0.), np.full_like: _like(None),
    np.array_equal: lambda a, b: np.shape(a) == np.shape(b) and bool(
        _all(UFO[np.equal](a, b))),
    np.count_nonzero: lambda a, **k: st._sumf(
        [SR.const(_b(v)) for v in np.asarray(a).reshape(-1)]),
    np.real: lambda a: a,
    np.diff: lambda a, n=1, axis=-1: UFO[np.subtract](
        np.take(to_obj(a), range(1, np.shape(a)[axis]), axis),
        np.take(to_obj(a), range(np.shape(a)[axis] - 1), axis)),
    np.isscalar: _isscalar,
    np.result_type: lambda *a: np.dtype(float),
}

_FLOATTYPES = {"float64", "float32", "float16", "double"}


class NP(types.ModuleType):
    """Replaces the global `np` of the modules under check."""
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d["array"] = _array
        d["asarray"] = _asarray
        d["asanyarray"] = _asarray
        d["ascontiguousarray"] = _asarray
        d["copy"] = lambda a, **k: up(np.copy(a))
        for n in ("zeros", "ones", "empty", "eye", "identity", "tri"):
            d[n] = _mk(getattr(np, n))
        d["full"] = _full
        d["linspace"] = _linspace
        d["arange"] = _arange
        d["isscalar"] = _isscalar
        for uf, f in UFO.items():
            d[uf.__name__] = self._uf(uf)
        d["abs"] = d["absolute"]
        d["true_divide"] = d["divide"]
        d["mod"] = d["remainder"]
        for fn, h in FUNCS.items():
            if getattr(np, fn.__name__, None) is fn:
                d[fn.__name__] = self._fn(fn, h)
        d["linalg"] = types.SimpleNamespace(**{
            k: getattr(np.linalg, k) for k in dir(np.linalg)
            if not k.startswith("__")})
        for fn, h in FUNCS.items():
            if getattr(np.linalg, fn.__name__, None) is fn:
                setattr(d["linalg"], fn.__name__, self._fn(fn, h))
        d["random"] = types.SimpleNamespace(**{
            k: (_random(k) if k in (
                "rand", "randn", "uniform", "normal", "random",
                "random_sample", "multivariate_normal", "exponential",
                "standard_normal") else getattr(np.random, k))
            for k in dir(np.random) if not k.startswith("__")})
        d["matmul"] = lambda a, b, **k: matmul(a, b)
        d["max"] = d["amax"] = self._fn(np.max, FUNCS[np.max])
        d["min"] = d["amin"] = self._fn(np.min, FUNCS[np.min])

    @staticmethod
    def _uf(uf):
        def run(*a, **k):
            if any(is_symbolic(v) or isinstance(v, torch.Tensor) for v in a):
                out = k.get("out")
                return _boolres(UFO[uf](*a, out=out))
            r = uf(*a, **k)
            return up(r)
        run.at = uf.at
        run.reduce = uf.reduce
        run.outer = uf.outer
        run.accumulate = uf.accumulate
        run.__name__ = uf.__name__
        return run

    @staticmethod
    def _fn(fn, h):
        def run(*a, **k):
            if any(is_symbolic(v) or _has_tensor(v) for v in a) or any(
                    is_symbolic(v) for v in k.values()):
                return _boolres(h(*a, **k))
            return up(fn(*a, **k))
        run.__name__ = getattr(fn, "__name__", "f")
        return run

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, types.FunctionType) or (
                callable(v) and not isinstance(v, type)):
            def run(*a, **k):
                a = tuple(to_obj(x) if (isinstance(x, (list, tuple)) and
                                        is_symbolic(x) and not any(
                    isinstance(q, np.ndarray) and q.ndim for q in x)) or
                    isinstance(x, st.SymTensor) else x for x in a)
                return up(v(*a, **k))
            run.__name__ = name
            return run
        return v


class FakeMath(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f
        m = {"fabs": abs, "sqrt": SR.sqrt, "sin": SR.sin, "cos": SR.cos,
             "tan": SR.tan, "exp": SR.exp, "log": SR.log, "tanh": SR.tanh,
             "atan": SR.arctan, "floor": lambda x: int(x.floor()),
             "ceil": lambda x: int(x.ceil())}.get(name)

        def run(*a):
            a = [st.t_item(x) if isinstance(x, st.SymTensor) else x for x in a]
            if m is not None and any(isinstance(x, SR) for x in a):
                return m(*a)
            if name == "isclose":
                return abs(a[0] - a[1]) <= 1e-9
            if name in ("isinf", "isnan", "isfinite") and isinstance(
                    a[0], SR):
                return UF[getattr(np, name)][0](a[0])
            return f(*[float(x) if isinstance(x, SR) else x for x in a])
        return run


# ---------------------------------------------------------------------------
# builtins for the modules under check

import builtins as _bi  # noqa: E402


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _bi.isinstance(x, _bi.float) or _bi.isinstance(x, SR)

    def __call__(cls, x=0., *a):
        if _bi.isinstance(x, SR):
            return x
        if _bi.isinstance(x, st.SymTensor):
            return st.t_item(x)
        if _bi.isinstance(x, SymArray) and x.size == 1:
            return SR.const(np.asarray(x).reshape(-1)[0])
        return _bi.float(x, *a)

    def __eq__(cls, o):
        return o is cls or o is _bi.float

    def __hash__(cls):
        return hash(_bi.float)


class _Float(metaclass=_FloatMeta):
    fromhex = _bi.float.fromhex


def _isinstance(x, t):
    if _bi.isinstance(x, SR):
        ts = t if _bi.isinstance(t, tuple) else (t, )
        for q in ts:
            if q is _bi.float or q is _Float or q is np.floating or \
                    q is np.float64:
                return True
            if q.__module__ == "numbers" and q.__name__ in ("Number", "Real"):
                return True
    if _bi.isinstance(t, tuple):
        t = tuple(_bi.float if q is _Float else q for q in t)
    elif t is _Float:
        t = _bi.float
    return _bi.isinstance(x, t)


def _max(*a, **k):
    return _mm(a, k, smax, _bi.max)


def _min(*a, **k):
    return _mm(a, k, smin, _bi.min)


def _mm(a, k, f, g):
    if k:
        return g(*a, **k)
    vs = list(a[0]) if len(a) == 1 else list(a)
    if not _bi.any(_bi.isinstance(v, (SR, st.SymTensor)) for v in vs):
        return g(vs) if vs else g(*a)
    if _bi.all(_bi.isinstance(v, (SR, int, _bi.float)) for v in vs):
        r = vs[0]
        for v in vs[1:]:
            r = f(r, v)
        return r
    return g(vs)


def _int(x=0, *a):
    if _bi.isinstance(x, SR):
        return _bi.int(x)
    if _bi.isinstance(x, st.SymTensor):
        return st._h_int((x, ), {})
    return _bi.int(x, *a)


BUILTINS = {"float": _Float, "isinstance": _isinstance, "max": _max,
            "min": _min}
