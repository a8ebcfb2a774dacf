"""Symbolic scalars: exact rationals, multivariate polynomials over solver
atoms, and solver booleans.

An SR is the value of one floating point number of the code under check, read
as a real.  A constant SR holds a Fraction (or a float inf); a symbolic SR is a
polynomial (dict monomial -> Fraction) over "atoms", each atom being a z3 Real
term: an input variable, an if-then-else, or an auxiliary variable with
defining axioms (square root, reciprocal, sine, ...).
"""
import math
import os
import sys
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402


class Unsupported(Exception):
    """The code under check used something the encoder cannot represent."""


def snap(f):
    """The simplest rational that a float stands for (0.1 -> 1/10)."""
    f = float(f)
    if f == 0:
        return Fraction(0)
    ex = Fraction(f)
    if ex.denominator <= 1 << 20:
        return ex
    tol = abs(ex) * Fraction(1, 1 << 51)
    for d in (10**3, 10**5, 10**7):
        s = ex.limit_denominator(d)
        if abs(s - ex) <= tol:
            return s
    # decimal shape, e.g. 1e-10 or 1.2345e-07
    s = Fraction(repr(f))
    if s.denominator != ex.denominator and len(repr(f)) <= 13:
        return s
    return ex


_atoms = {}          # z3 ast id -> z3 term (kept alive)
_axioms = {}         # aux constant name -> list of z3 axioms
_aux_cache = {}      # (kind, key) -> SR
_aux_count = [0]


def reset():
    _atoms.clear()
    _axioms.clear()
    _aux_cache.clear()
    _aux_count[0] = 0
    _rewrites.clear()
    _inverse_of.clear()
    denominators.clear()
    _trig_args.clear()
    _cmps.clear()


def _q(fr):
    if fr.denominator == 1:
        return z3.RealVal(str(fr.numerator))
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


_poly_limit = 40000


class SR:
    __slots__ = ("c", "p", "_z", "_k", "__weakref__")

    def __init__(self, c=None, p=None):
        self.c = c
        self.p = p
        self._z = None
        self._k = None

    # ---- construction -------------------------------------------------
    @staticmethod
    def const(v):
        if isinstance(v, SR):
            return v
        if isinstance(v, Fraction):
            return SR(v)
        if isinstance(v, (bool, np.bool_)):
            return SR(Fraction(int(v)))
        if isinstance(v, (int, np.integer)):
            return SR(Fraction(int(v)))
        if isinstance(v, SB):
            return ite(v, SR(Fraction(1)), SR(Fraction(0)))
        f = float(v)
        if math.isfinite(f):
            return SR(snap(f))
        return SR(f)

    @staticmethod
    def atom(term):
        i = term.get_id()
        _atoms[i] = term
        return SR(None, {((i, 1), ): Fraction(1)})

    @staticmethod
    def var(name):
        return SR.atom(z3.Real(name))

    @staticmethod
    def _mk(p):
        p = {m: k for m, k in p.items() if k != 0}
        if not p:
            return SR(Fraction(0))
        if len(p) == 1 and () in p:
            return SR(p[()])
        if len(p) > _poly_limit:
            raise Unsupported("polynomial too large")
        return SR(None, p)

    # ---- inspection ----------------------------------------------------
    def is_const(self):
        return self.c is not None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.poly().items())
        return self._k

    def poly(self):
        if self.c is not None:
            if isinstance(self.c, float):
                raise Unsupported("infinite constant inside an expression")
            return {(): self.c} if self.c != 0 else {}
        return self.p

    def z(self):
        if self._z is None:
            if self.c is not None:
                if isinstance(self.c, float):
                    raise Unsupported("infinite constant sent to the solver")
                self._z = _q(self.c)
            else:
                ts = []
                for m, k in self.p.items():
                    fs = []
                    for i, e in m:
                        fs.extend([_atoms[i]] * e)
                    if not fs:
                        ts.append(_q(k))
                        continue
                    t = fs[0]
                    for f in fs[1:]:
                        t = t * f
                    if k != 1:
                        t = _q(k) * t
                    ts.append(t)
                self._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return self._z

    def degree(self):
        if self.c is not None:
            return 0
        return max(sum(e for _, e in m) for m in self.p)

    # ---- arithmetic ----------------------------------------------------
    def _coerce(self, o):
        if isinstance(o, SR):
            return o
        if isinstance(o, (int, float, Fraction, np.integer, np.floating,
                          bool, np.bool_, SB)):
            return SR.const(o)
        return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if self.c is not None and o.c is not None:
            return _cadd(self.c, o.c)
        if self.c is not None:
            if isinstance(self.c, float):
                return self
            if self.c == 0:
                return o
        if o.c is not None:
            if isinstance(o.c, float):
                return o
            if o.c == 0:
                return self
        a, b = self.poly(), o.poly()
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, k in b.items():
            r[m] = r.get(m, 0) + k
        return SR._mk(r)

    __radd__ = __add__

    def __neg__(self):
        if self.c is not None:
            return SR(-self.c)
        return SR(None, {m: -k for m, k in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if self.c is not None and o.c is not None:
            return _cmul(self.c, o.c)
        if self.c is not None:
            self, o = o, self
        if o.c is not None:
            if isinstance(o.c, float):
                return _inf_times(self, o.c)
            if o.c == 0:
                return SR(Fraction(0))
            if o.c == 1:
                return self
            c = o.c
            return SR(None, {m: k * c for m, k in self.p.items()})
        r = {}
        if len(self.p) * len(o.p) > _poly_limit:
            raise Unsupported("polynomial product too large")
        for m1, k1 in self.p.items():
            for m2, k2 in o.p.items():
                m = _mmul(m1, m2)
                r[m] = r.get(m, 0) + k1 * k2
        r = _reduce(r)
        return SR._mk(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if o.c is not None:
            if self.c is not None:
                return _cdiv(self.c, o.c)
            if isinstance(o.c, float):
                return SR(Fraction(0))
            if o.c == 0:
                raise Unsupported("division of a symbolic value by zero")
            return self * SR(1 / o.c)
        if self.c is not None and self.c == 0:
            return self
        # exact cancellation of a proportional numerator
        if self.c is None and len(self.p) == len(o.p):
            m0 = next(iter(o.p))
            if m0 in self.p:
                k = self.p[m0] / o.p[m0]
                if all(self.p.get(m) == k * v for m, v in o.p.items()):
                    return SR(k)
        return self * recip(o)

    def __rtruediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, n):
        if isinstance(n, SR):
            if n.c is None:
                raise Unsupported("symbolic exponent")
            n = n.c
        if isinstance(n, float) and not n.is_integer() or isinstance(
                n, Fraction) and n.denominator != 1:
            if Fraction(n) == Fraction(1, 2):
                return self.sqrt()
            if Fraction(n) == Fraction(-1, 2):
                return SR(Fraction(1)) / self.sqrt()
            if Fraction(n) == Fraction(3, 2):
                return self * self.sqrt()
            if self.c is not None:
                return SR.const(float(self.c)**float(n))
            raise Unsupported("power %r" % (n, ))
        n = int(n)
        if n < 0:
            return SR(Fraction(1)) / (self**(-n))
        r = SR(Fraction(1))
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, o):
        if self.c is not None:
            return SR.const(o)**self
        raise Unsupported("symbolic exponent")

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        o = self._coerce(o)
        return self - (self / o).floor() * o

    def floor(self):
        if self.c is not None:
            return SR(Fraction(math.floor(self.c)))
        raise Unsupported("floor of a symbolic value")

    def ceil(self):
        if self.c is not None:
            return SR(Fraction(math.ceil(self.c)))
        raise Unsupported("ceil of a symbolic value")

    def rint(self):
        if self.c is not None:
            return SR(Fraction(round(self.c)))
        raise Unsupported("round of a symbolic value")

    def __round__(self, n=None):
        if self.c is not None:
            return round(self.c) if n is None else SR(round(self.c, n))
        raise Unsupported("round of a symbolic value")

    def __floor__(self):
        return int(self.floor().c)

    def __ceil__(self):
        return int(self.ceil().c)

    def __abs__(self):
        if self.c is not None:
            return SR(abs(self.c))
        return ite(self >= 0, self, -self)

    # ---- transcendental, by name so that numpy object ufuncs find them --
    def sqrt(self):
        if self.c is not None:
            c = self.c
            if c == 0:
                return SR(Fraction(0))
            if isinstance(c, float):
                return SR(c)
            if c < 0:
                return SR(float("nan"))
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return SR(Fraction(n, d))
            return SR(Fraction(math.sqrt(c)))
        # perfect squares of a single monomial
        def mk(v):
            return [v.z() >= 0, v.z() * v.z() == self.z()]
        return aux("sqrt", self.key(), mk)

    def sin(self):
        return _trig(self)[0]

    def cos(self):
        return _trig(self)[1]

    def tan(self):
        s, c = _trig(self)
        return s / c

    def exp(self):
        if self.c is not None:
            if self.c == 0:
                return SR(Fraction(1))
            return SR.const(math.exp(self.c))
        return aux("exp", self.key(), lambda v: [v.z() > 0])

    def log(self):
        if self.c is not None:
            return SR.const(math.log(self.c) if self.c > 0 else
                            (float("-inf") if self.c == 0 else float("nan")))
        return aux("log", self.key(), lambda v: [])

    def tanh(self):
        if self.c is not None:
            return SR.const(math.tanh(self.c))
        return aux("tanh", self.key(), lambda v: [
            v.z() > -1, v.z() < 1,
            z3.Implies(self.z() > 0, v.z() > 0),
            z3.Implies(self.z() < 0, v.z() < 0),
            z3.Implies(self.z() == 0, v.z() == 0)])

    def sigmoid(self):
        if self.c is not None:
            return SR.const(1 / (1 + math.exp(-self.c)))
        return aux("sigmoid", self.key(), lambda v: [
            v.z() > 0, v.z() < 1,
            z3.Implies(self.z() > 0, v.z() > z3.RealVal("1/2")),
            z3.Implies(self.z() < 0, v.z() < z3.RealVal("1/2")),
            z3.Implies(self.z() == 0, v.z() == z3.RealVal("1/2"))])

    def sign(self):
        if self.c is not None:
            return SR(Fraction((self.c > 0) - (self.c < 0)))
        one, zero = SR(Fraction(1)), SR(Fraction(0))
        return ite(self > 0, one, ite(self < 0, -one, zero))

    def arctan(self):
        return self._fn("atan", math.atan)

    def arcsin(self):
        return self._fn("asin", math.asin)

    def arccos(self):
        return self._fn("acos", math.acos)

    def log1p(self):
        return self._fn("log1p", math.log1p)

    def expm1(self):
        return self._fn("expm1", math.expm1)

    def _fn(self, name, f):
        if self.c is not None:
            return SR.const(f(self.c))
        return aux(name, self.key(), lambda v: [])

    def conjugate(self):
        return self

    # ---- comparisons ---------------------------------------------------
    def _cmp(self, o, op):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if self.c is not None and o.c is not None:
            a, b = self.c, o.c
            return {"<": a < b, "<=": a <= b, "==": a == b}[op]
        if (self.c is not None and isinstance(self.c, float)) or (
                o.c is not None and isinstance(o.c, float)):
            # finite against infinite
            if self.c is not None and isinstance(self.c, float):
                a, b = self.c, 0.
            else:
                a, b = 0., o.c
            return {"<": a < b, "<=": a <= b, "==": False}[op]
        d = self - o
        if d.c is not None:
            return {"<": d.c < 0, "<=": d.c <= 0, "==": d.c == 0}[op]
        return _mkcmp(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o._cmp(self, "<")

    def __ge__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o._cmp(self, "<=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "==")
        if r is NotImplemented:
            return True
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = object.__hash__

    # ---- conversions ----------------------------------------------------
    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.c is None:
            raise Unsupported("float() of a symbolic value")
        return float(self.c)

    def __int__(self):
        if self.c is None:
            # one path for each integer
            if not bool(band(self < 65, self > -65)):
                raise Unsupported("int() of a large symbolic value")
            if bool(band(self < 1, self > -1)):
                return 0
            up = bool(self >= 1)
            for k in range(1, 65):
                if bool(self < k + 1 if up else self > -k - 1):
                    return k if up else -k
        return int(self.c)

    def __index__(self):
        if self.c is not None and not isinstance(
                self.c, float) and self.c.denominator == 1:
            return int(self.c)
        if self.c is None and bool(SB(z3.IsInt(self.z()))):
            for k in range(17):
                if bool(self == k):
                    return k
            raise Unsupported("large symbolic index")
        raise TypeError("SR as an index")

    def __trunc__(self):
        return int(self)

    def __format__(self, spec):
        if self.c is not None:
            return format(float(self.c), spec)
        return repr(self)

    def __repr__(self):
        if self.c is not None:
            return "SR(%s)" % self.c
        s = str(self.z())
        return "SR(%s)" % (s if len(s) < 200 else s[:200] + "...")

    def item(self):
        return self

    def tolist(self):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def copy(self):
        return self

    def squeeze(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        if self.c is not None:
            return (SR.const, (self.c, ))
        raise Unsupported("pickling a symbolic value")

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from symx import tensor
        return tensor.scalar_torch_function(func, args, kwargs or {})


def _cadd(a, b):
    return SR(a + b)


def _cmul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if a == 0 or b == 0:
            return SR(float("nan"))
        r = float("inf") if (a > 0) == (b > 0) else float("-inf")
        if a != a or b != b:
            r = float("nan")
        return SR(r)
    return SR(a * b)


def _cdiv(a, b):
    if isinstance(b, float) and not isinstance(a, float):
        return SR(Fraction(0)) if b == b else SR(b)
    if b == 0:
        if a == 0 or a != a:
            return SR(float("nan"))
        return SR(float("inf") if a > 0 else float("-inf"))
    if isinstance(a, float):
        if isinstance(b, float):
            return SR(float("nan"))
        return SR(a if b > 0 else -a)
    return SR(a / b)


def _inf_times(s, c):
    raise Unsupported("symbolic value times an infinite constant")


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


_rewrites = {}   # atom id -> (power n, poly dict): atom^n -> poly
_inverse_of = {}  # recip atom id -> atom id for pure-atom reciprocals


def _reduce(p):
    """Apply algebraic rewrites: sqrt(q)^2 -> q, cos^2 -> 1 - sin^2,
    atom * recip(atom) -> 1."""
    if not _rewrites and not _inverse_of:
        return p
    while True:
        hit = None
        for m in p:
            d = None
            for i, e in m:
                rw = _rewrites.get(i)
                if rw is not None and e >= 2:
                    hit = (m, i, e, rw)
                    break
                if i in _inverse_of:
                    if d is None:
                        d = dict(m)
                    if _inverse_of[i] in d:
                        hit = (m, i, e, None)
                        break
            if hit:
                break
        if not hit:
            return p
        m, i, e, rw = hit
        k = p[m]
        p = dict(p)
        del p[m]
        d = dict(m)
        if rw is None:
            j = _inverse_of[i]
            t = min(d[i], d[j])
            for q in (i, j):
                d[q] -= t
                if not d[q]:
                    del d[q]
            nm = tuple(sorted(d.items()))
            p[nm] = p.get(nm, 0) + k
            if p[nm] == 0:
                del p[nm]
        else:
            d[i] -= 2
            if not d[i]:
                del d[i]
            base = tuple(sorted(d.items()))
            for m2, k2 in rw.items():
                nm = _mmul(base, m2)
                p[nm] = p.get(nm, 0) + k * k2
                if p[nm] == 0:
                    del p[nm]


def aux(kind, key, mk):
    """A fresh real with defining axioms, shared between equal arguments."""
    r = _aux_cache.get((kind, key))
    if r is not None:
        return r
    _aux_count[0] += 1
    name = "%s!%d" % (kind, _aux_count[0])
    r = SR.var(name)
    _aux_cache[(kind, key)] = r
    _axioms[name] = mk(r)
    if kind == "sqrt":
        (i, _), = next(iter(r.p))
        _rewrites[i] = dict(key)
    return r


def _atom_id(s):
    """id of s if s is exactly one atom."""
    if s.c is None and len(s.p) == 1:
        (m, k), = s.p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def recip(s):
    # normalise the leading coefficient so that 1/(2x) and 1/x share an atom
    items = sorted(s.p.items())
    k = items[0][1]
    n = SR(None, {m: v / k for m, v in s.p.items()})
    if len(n.p) == 1:
        (m, _), = n.p.items()
        if len(m) > 1 or m[0][1] > 1:
            r = SR(1 / k)
            for i, e in m:
                ri = recip(SR(None, {((i, 1), ): Fraction(1)}))
                r = r * ri**e
            return r
    denominators.append(n)
    r = aux("recip", n.key(), lambda v: [v.z() * n.z() == 1])
    a = _atom_id(n)
    if a is not None:
        _inverse_of[_atom_id(r)] = a
    return r * SR(1 / k)


denominators = []


def _trig(s):
    if s.c is not None:
        if s.c == 0:
            return SR(Fraction(0)), SR(Fraction(1))
        q = float(s.c) / (math.pi / 2)
        if abs(q - round(q)) < 1e-13:
            return [(SR(Fraction(0)), SR(Fraction(1))),
                    (SR(Fraction(1)), SR(Fraction(0))),
                    (SR(Fraction(0)), SR(Fraction(-1))),
                    (SR(Fraction(-1)), SR(Fraction(0)))][round(q) % 4]
        return (SR(Fraction(math.sin(s.c))), SR(Fraction(math.cos(s.c))))
    # sin(-a) = -sin(a)
    items = sorted(s.p.items())
    lead = items[0] if items[0][0] != () else items[1]
    if lead[1] < 0:
        a, b = _trig(-s)
        return -a, b
    k = s.key()
    c = _aux_cache.get(("cos", k))
    if c is None:
        sn = aux("sin", k, lambda v: [v.z() >= -1, v.z() <= 1])
        c = aux("cos", k, lambda v: [v.z() >= -1, v.z() <= 1,
                                     v.z() * v.z() + sn.z() * sn.z() == 1])
        _axioms[str(sn.z())].append(c.z() * c.z() + sn.z() * sn.z() == 1)
        _rewrites[_atom_id(c)] = {(): Fraction(1),
                                  ((_atom_id(sn), 2), ): Fraction(-1)}
        _trig_args.append((s, sn, c))
    return _aux_cache[("sin", k)], c


_trig_args = []

# ---------------------------------------------------------------------------


class SB:
    """A solver boolean.  bool() of it forks the execution."""
    __slots__ = ("e", "_neg")

    def __init__(self, e):
        self.e = e
        self._neg = None

    def __invert__(self):
        if self._neg is None:
            n = z3.Not(self.e)
            if z3.is_not(self.e):
                n = self.e.arg(0)
            self._neg = SB(n)
            self._neg._neg = self
        return self._neg

    def logical_not(self):
        return ~self

    def __and__(self, o):
        if isinstance(o, SB):
            return SB(z3.And(self.e, o.e))
        return self if bool(o) else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SB):
            return SB(z3.Or(self.e, o.e))
        return True if bool(o) else self

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SB):
            return SB(z3.Xor(self.e, o.e))
        return ~self if bool(o) else self

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return bnot(self ^ o)
        if isinstance(o, (int, float, SR)):
            return SR.const(self) == o
        return False

    def __ne__(self, o):
        r = self == o
        return bnot(r)

    __hash__ = object.__hash__

    def __bool__(self):
        return fork(self)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return SR.const(self) + SR.const(o)

    __radd__ = __add__

    def __sub__(self, o):
        return SR.const(self) - SR.const(o)

    def __rsub__(self, o):
        return SR.const(o) - SR.const(self)

    def __mul__(self, o):
        return SR.const(self) * SR.const(o)

    __rmul__ = __mul__

    def item(self):
        return self

    def all(self):
        return self

    def any(self):
        return self

    def __repr__(self):
        return "SB(%s)" % str(self.e)[:200]

    def __deepcopy__(self, memo):
        return self


def bnot(b):
    return ~b if isinstance(b, SB) else (not b)


def band(*bs):
    es = []
    for b in bs:
        if isinstance(b, SB):
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return SB(es[0] if len(es) == 1 else z3.And(*es))


def bor(*bs):
    es = []
    for b in bs:
        if isinstance(b, SB):
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return SB(es[0] if len(es) == 1 else z3.Or(*es))


def bz(b):
    return b.e if isinstance(b, SB) else z3.BoolVal(bool(b))


def _mkcmp(d, op):
    """d op 0, normalised so that equal conditions are the same term."""
    items = sorted(d.p.items())
    lead = next(k for m, k in items if m != ())
    n = SR(None, {m: v / abs(lead) for m, v in d.p.items()})
    if op == "==":
        if lead < 0:
            n = -n
        return SB(n.z() == 0)
    neg = lead < 0
    if neg:
        n = -n
    strict = (op == "<") != neg
    e = n.z() < 0 if strict else n.z() <= 0
    _cmps[e.get_id()] = (e, n, strict)
    return SB(z3.Not(e)) if neg else SB(e)


_cmps = {}


def _proportional(d, n):
    if len(d.p) != len(n.p):
        return False
    r = None
    for m, k in n.p.items():
        v = d.p.get(m)
        if v is None:
            return False
        if r is None:
            r = v / k
        elif v != r * k:
            return False
    return True


def ite(c, a, b):
    if not isinstance(c, SB):
        return a if c else b
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return bor(band(c, a), band(bnot(c), b))
    a = SR.const(a)
    b = SR.const(b)
    if a is b:
        return a
    if a.c is not None and b.c is not None and a.c == b.c:
        return a
    if a.c is None and b.c is None and a.p == b.p:
        return a
    # sign normalisation: ite(not c, a, b) = ite(c, b, a)
    if z3.is_not(c.e):
        c, a, b = SB(c.e.arg(0)), b, a
    info = _cmps.get(c.e.get_id())
    if info is not None and not info[2]:
        # both branches agree where the condition is an equality: the strict
        # form is the representative
        d = a - b
        if d.c is None and _proportional(d, info[1]):
            e = info[1].z() < 0
            _cmps[e.get_id()] = (e, info[1], True)
            c = SB(e)
    return SR.atom(z3.If(c.e, a.z(), b.z()))


def smax(a, b):
    a, b = SR.const(a), SR.const(b)
    if _later(a, b):
        a, b = b, a
    return ite(a >= b, a, b)


def _later(a, b):
    if a.c is not None or b.c is not None:
        return a.c is not None and b.c is None
    return sorted(a.p.items()) > sorted(b.p.items())


def smin(a, b):
    a, b = SR.const(a), SR.const(b)
    if _later(a, b):
        a, b = b, a
    return ite(a >= b, b, a)


# ---------------------------------------------------------------------------
# forking

class Forker:
    def decide(self, sb):
        raise Unsupported("branch on a symbolic condition outside a run")


_forker = [None]


def fork(sb):
    e = z3.simplify(sb.e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if _forker[0] is None:
        raise Unsupported("branch on a symbolic condition outside a run")
    return _forker[0].decide(sb)


# ---------------------------------------------------------------------------
# axioms relevant to a formula

def collect_axioms(exprs):
    seen = set()
    out = []
    done = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n in _axioms and n not in done:
                    done.add(n)
                    for a in _axioms[n]:
                        out.append(a)
                        stack.append(a)
        else:
            stack.extend(e.children())
    return out
