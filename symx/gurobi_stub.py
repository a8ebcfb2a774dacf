"""Environment model of gurobipy: records programs, solves small ones.

Values are exact (symx SR).  `optimize` decides constant-data LP/MILP exactly
with z3, or in floating point with scipy when `FLOAT` is set (replay).
"""
import sys
import types
from fractions import Fraction

import numpy as np
import torch

from symx.num import SR, SB, Unsupported, z3
from symx import num


class GurobiError(Exception):
    pass


FLOAT = [False]   # True while replaying concretely
stats = {"optimize": 0, "time": 0.}


class _NS:
    pass


class _Attr(dict):
    def __getattr__(self, n):
        return n


class GRB:
    INFINITY = 1e100
    CONTINUOUS = "C"
    BINARY = "B"
    INTEGER = "I"
    LESS_EQUAL = "<"
    EQUAL = "="
    GREATER_EQUAL = ">"
    MINIMIZE = 1
    MAXIMIZE = -1
    LOADED = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    CUTOFF = 6
    ITERATION_LIMIT = 7
    NODE_LIMIT = 8
    TIME_LIMIT = 9
    SOLUTION_LIMIT = 10
    INTERRUPTED = 11
    NUMERIC = 12
    SUBOPTIMAL = 13

    class Status:
        LOADED = 1
        OPTIMAL = 2
        INFEASIBLE = 3
        INF_OR_UNBD = 4
        UNBOUNDED = 5
        CUTOFF = 6
        ITERATION_LIMIT = 7
        NODE_LIMIT = 8
        TIME_LIMIT = 9
        SOLUTION_LIMIT = 10
        INTERRUPTED = 11
        NUMERIC = 12
        SUBOPTIMAL = 13
    Param = _Attr()
    Attr = _Attr()
    attr = Attr
    param = Param

    class Callback:
        MIP = 3
        MIPSOL = 4
        MIPNODE = 5
        MIPNODE_STATUS = 5001
        MIPNODE_SOLCNT = 5006
        MIPNODE_OBJBST = 5003
        MIPNODE_OBJBND = 5004
        MIPNODE_NODCNT = 5005
        MIP_OBJBST = 3000
        MIPSOL_OBJ = 4002


def scal(x):
    if isinstance(x, SR):
        return x
    if isinstance(x, torch.Tensor):
        if x.numel() != 1:
            raise GurobiError("tensor with %d elements as a coefficient" %
                              x.numel())
        from symx import tensor as st
        if isinstance(x, st.SymTensor):
            return SR.const(st.obj(x).reshape(-1)[0])
        return SR.const(x.item())
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise GurobiError("array as a coefficient")
        return SR.const(x.reshape(-1)[0])
    return SR.const(x)


def _isnum(x):
    return isinstance(x, (SR, int, float, np.number, torch.Tensor, Fraction)
                      ) or (isinstance(x, np.ndarray) and x.size == 1)


def out(v):
    """A number handed back to the code under check."""
    if FLOAT[0]:
        return float(v) if not isinstance(v, SR) else float(v.c)
    return SR.const(v)


def _inf(v):
    return v.c is not None and abs(v.c) >= 1e20


class Var:
    def __init__(self, model, lb, ub, vtype, name, index):
        d = self.__dict__
        d["_model"] = model
        d["_lb"] = scal(lb)
        d["_ub"] = scal(ub)
        d["vtype"] = vtype
        d["varname"] = name
        d["_index"] = index
        d["start"] = None

    def __getattr__(self, n):
        k = n.lower()
        if k == "x":
            return self._model._xval(self, 0)
        if k == "xn":
            return self._model._xval(self, self._model._solnum())
        if k == "lb":
            return out(self._lb)
        if k == "ub":
            return out(self._ub)
        if k == "obj":
            return out(self._model._objective._coef(self))
        if k == "index":
            return self._index
        if k.startswith("__"):
            raise AttributeError(n)
        if k in self.__dict__:
            return self.__dict__[k]
        raise AttributeError(n)

    def __setattr__(self, n, v):
        k = n.lower()
        if k in ("lb", "ub"):
            self.__dict__["_" + k] = scal(v)
        elif k == "obj":
            self._model._objective.terms.append((scal(v), self))
        else:
            self.__dict__[k] = v

    def getAttr(self, n):
        return getattr(self, n)

    def setAttr(self, n, v):
        setattr(self, n, v)

    def sameAs(self, o):
        return self is o

    def _le(self):
        return LinExpr(1., self)

    def __add__(self, o):
        return self._le() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._le() - o

    def __rsub__(self, o):
        return (-1. * self._le()) + o

    def __mul__(self, o):
        if isinstance(o, (Var, LinExpr)):
            return self._le() * o
        return self._le() * o

    __rmul__ = __mul__

    def __neg__(self):
        return self._le() * -1.

    def __pos__(self):
        return self

    def __truediv__(self, o):
        return self._le() / o

    def __pow__(self, n):
        assert n == 2
        return self._le() * self._le()

    def __le__(self, o):
        return self._le() <= o

    def __ge__(self, o):
        return self._le() >= o

    def __eq__(self, o):
        if isinstance(o, Var) or o is None or isinstance(o, str):
            return self is o
        return self._le() == o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<gurobi.Var %s>" % self.varname

    def __torch_function__(self, func, types, args=(), kwargs=None):
        return NotImplemented


class TempConstr:
    def __init__(self, lhs, sense, rhs):
        self.lhs, self.sense, self.rhs = lhs, sense, rhs


class LinExpr:
    __array_ufunc__ = None

    def __init__(self, arg1=0., arg2=None):
        self.terms = []
        self.const = SR(Fraction(0))
        if arg2 is not None:
            if isinstance(arg2, Var):
                self.terms.append((scal(arg1), arg2))
                return
            vs = list(arg2)
            cs = list(arg1)
            if len(cs) != len(vs):
                raise GurobiError("list lengths do not match")
            for c, v in zip(cs, vs):
                self.terms.append((scal(c), v))
        elif isinstance(arg1, Var):
            self.terms.append((SR(Fraction(1)), arg1))
        elif isinstance(arg1, LinExpr):
            self.terms = list(arg1.terms)
            self.const = arg1.const
        elif isinstance(arg1, (list, tuple)):
            for c, v in arg1:
                self.terms.append((scal(c), v))
        else:
            self.const = scal(arg1)

    def _lift(self, o):
        if isinstance(o, LinExpr):
            return o
        if isinstance(o, Var):
            return o._le()
        if _isnum(o):
            r = LinExpr()
            r.const = scal(o)
            return r
        return None

    def copy(self):
        return LinExpr(self)

    def add(self, o, mult=1.):
        o = self._lift(o)
        m = scal(mult)
        self.terms += [(c * m, v) for c, v in o.terms]
        self.const = self.const + o.const * m

    def addTerms(self, cs, vs):
        if isinstance(vs, Var):
            self.terms.append((scal(cs), vs))
        else:
            for c, v in zip(cs, vs):
                self.terms.append((scal(c), v))

    def addConstant(self, c):
        self.const = self.const + scal(c)

    def __add__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        o = self._lift(o)
        if o is None:
            return NotImplemented
        r = LinExpr()
        r.terms = self.terms + o.terms
        r.const = self.const + o.const
        return r

    __radd__ = __add__

    def __iadd__(self, o):
        return self + o

    def __neg__(self):
        return self * -1.

    def __sub__(self, o):
        if isinstance(o, QuadExpr):
            return (o * -1.) + self
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self + o * -1.

    def __rsub__(self, o):
        return (self * -1.) + o

    def __mul__(self, o):
        if isinstance(o, (Var, LinExpr)):
            o = self._lift(o)
            q = QuadExpr()
            for c1, v1 in self.terms:
                for c2, v2 in o.terms:
                    q.quad.append((c1 * c2, v1, v2))
                q.lin.terms.append((c1 * o.const, v1))
            for c2, v2 in o.terms:
                q.lin.terms.append((c2 * self.const, v2))
            q.lin.const = self.const * o.const
            return q
        if not _isnum(o):
            return NotImplemented
        k = scal(o)
        r = LinExpr()
        r.terms = [(c * k, v) for c, v in self.terms]
        r.const = self.const * k
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (SR(Fraction(1)) / scal(o))

    def __pow__(self, n):
        assert n == 2
        return self * self

    def __le__(self, o):
        return TempConstr(self, "<", o)

    def __ge__(self, o):
        return TempConstr(self, ">", o)

    def __eq__(self, o):
        return TempConstr(self, "=", o)

    __hash__ = None

    def size(self):
        return len(self.terms)

    def getVar(self, i):
        return self.terms[i][1]

    def getCoeff(self, i):
        return out(self.terms[i][0])

    def getConstant(self):
        return out(self.const)

    def getValue(self):
        s = self.const
        for c, v in self.terms:
            s = s + c * scal(v.x)
        return out(s)

    def clear(self):
        self.terms = []
        self.const = SR(Fraction(0))

    def _coef(self, v):
        s = SR(Fraction(0))
        for c, w in self.terms:
            if w is v:
                s = s + c
        return s

    def eval(self, val):
        s = self.const
        for c, v in self.terms:
            if c.c is not None and c.c == 0:
                continue
            s = s + c * val[v]
        return s


class QuadExpr:
    __array_ufunc__ = None

    def __init__(self, expr=None):
        self.quad = []
        self.lin = LinExpr()
        if expr is not None:
            if isinstance(expr, QuadExpr):
                self.quad = list(expr.quad)
                self.lin = expr.lin.copy()
            else:
                self.lin = LinExpr(expr)

    def add(self, o, mult=1.):
        m = scal(mult)
        if isinstance(o, QuadExpr):
            self.quad += [(c * m, a, b) for c, a, b in o.quad]
            self.lin.add(o.lin, m)
        else:
            self.lin.add(o, m)

    def addTerms(self, cs, v1, v2=None):
        if isinstance(v1, Var):
            cs, v1 = [cs], [v1]
            v2 = None if v2 is None else [v2]
        if v2 is None:
            self.lin.addTerms(cs, v1)
        else:
            for c, a, b in zip(cs, v1, v2):
                self.quad.append((scal(c), a, b))

    def __add__(self, o):
        r = QuadExpr(self)
        r.add(o)
        return r

    __radd__ = __add__

    def __sub__(self, o):
        r = QuadExpr(self)
        r.add(o, -1.)
        return r

    def __rsub__(self, o):
        return (self * -1.) + o

    def __mul__(self, o):
        k = scal(o)
        r = QuadExpr()
        r.quad = [(c * k, a, b) for c, a, b in self.quad]
        r.lin = self.lin * k
        return r

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1.

    def __truediv__(self, o):
        return self * (SR(Fraction(1)) / scal(o))

    def __le__(self, o):
        return TempConstr(self, "<", o)

    def __ge__(self, o):
        return TempConstr(self, ">", o)

    def __eq__(self, o):
        return TempConstr(self, "=", o)

    __hash__ = None

    def size(self):
        return len(self.quad)

    def getLinExpr(self):
        return self.lin

    def getValue(self):
        val = {}
        for c, a, b in self.quad:
            val[a] = scal(a.x)
            val[b] = scal(b.x)
        for c, a in self.lin.terms:
            val[a] = scal(a.x)
        return out(self.eval(val))

    def eval(self, val):
        s = self.lin.eval(val)
        for c, a, b in self.quad:
            if c.c is not None and c.c == 0:
                continue
            s = s + c * val[a] * val[b]
        return s

    def _coef(self, v):
        return self.lin._coef(v)


def quicksum(it):
    r = LinExpr()
    for x in it:
        if isinstance(x, QuadExpr) and not isinstance(r, QuadExpr):
            r = QuadExpr(r)
        if isinstance(r, QuadExpr):
            r.add(x)
        else:
            r = r + x
    return r


class Constr:
    def __init__(self, model, expr, sense, rhs, name):
        self.__dict__.update(_model=model, expr=expr, _sense=sense,
                             _rhs=rhs, constrname=name)

    def __getattr__(self, n):
        k = n.lower()
        if k == "sense":
            return self._sense
        if k in ("rhs", "qcrhs"):
            return out(self._rhs)
        if k == "slack":
            val = {v: scal(v.x) for v in self._model._vars}
            return out(self._rhs - self.expr.eval(val))
        if k in self.__dict__:
            return self.__dict__[k]
        raise AttributeError(n)

    def __setattr__(self, n, v):
        k = n.lower()
        if k == "rhs":
            self.__dict__["_rhs"] = scal(v)
        elif k == "sense":
            self.__dict__["_sense"] = v
        else:
            self.__dict__[k] = v

    def __hash__(self):
        return id(self)

    def holds(self, val, tol=0):
        """Condition (SR comparison) of the constraint at an assignment."""
        d = self.expr.eval(val) - self._rhs
        if self._sense == "<":
            return d <= tol
        if self._sense == ">":
            return d >= -tol
        if tol == 0:
            return d == 0
        return num.band(d <= tol, d >= -tol)


class tupledict(dict):
    def values(self):
        return list(dict.values(self))

    def select(self, *a):
        return self.values()

    def sum(self, *a):
        return quicksum(self.values())

    def prod(self, c, *a):
        return quicksum(scal(c[k]) * v for k, v in self.items())


class MVar:
    """1-D/2-D array of variables."""
    def __init__(self, vs, shape=None):
        self._vs = np.array(list(vs) + [None], dtype=object)[:-1]
        if shape is not None:
            self._vs = self._vs.reshape(shape)

    @property
    def shape(self):
        return self._vs.shape

    def tolist(self):
        return self._vs.tolist()

    def __len__(self):
        return len(self._vs)

    def __getitem__(self, i):
        r = self._vs[i]
        if isinstance(r, np.ndarray):
            return MVar(r.reshape(-1), r.shape)
        return r

    def __iter__(self):
        return iter(self._vs)

    @classmethod
    def fromlist(cls, vs):
        return cls(vs)

    def sum(self):
        return quicksum(self._vs.reshape(-1))

    def __getattr__(self, n):
        if n.lower() in ("x", "xn"):
            return np.array([getattr(v, n) for v in self._vs.reshape(-1)]
                            ).reshape(self._vs.shape)
        raise AttributeError(n)

    def __rmatmul__(self, A):
        return _mle(A, list(self._vs))

    def __matmul__(self, b):
        return LinExpr(list(b), list(self._vs))

    def __le__(self, o):
        return [TempConstr(LinExpr(v), "<", b) for v, b in
                zip(self._vs, np.broadcast_to(o, self._vs.shape))]

    def __ge__(self, o):
        return [TempConstr(LinExpr(v), ">", b) for v, b in
                zip(self._vs, np.broadcast_to(o, self._vs.shape))]

    def __eq__(self, o):
        return [TempConstr(LinExpr(v), "=", b) for v, b in
                zip(self._vs, np.broadcast_to(o, self._vs.shape))]

    __hash__ = None


class MLinExpr(list):
    def _rel(self, s, o):
        o = list(o) if hasattr(o, "__len__") else [o] * len(self)
        return [TempConstr(e, s, b) for e, b in zip(self, o)]

    def __le__(self, o):
        return self._rel("<", o)

    def __ge__(self, o):
        return self._rel(">", o)

    def __eq__(self, o):
        return self._rel("=", o)

    __hash__ = None

    def __add__(self, o):
        return MLinExpr(a + b for a, b in zip(self, o))


def _mle(A, vs):
    A = _mat(A)
    if A.ndim == 1:
        return LinExpr(list(A), vs)
    return MLinExpr(LinExpr(list(A[i]), vs) for i in range(A.shape[0]))


def _mat(A):
    if isinstance(A, torch.Tensor):
        from symx import tensor as st
        return st.obj(A)
    if hasattr(A, "toarray"):
        return A.toarray()
    return np.asarray(A)


class _Params:
    def __init__(self):
        self.__dict__["d"] = {}

    def __getattr__(self, n):
        return self.d.get(n.lower(), 0)

    def __setattr__(self, n, v):
        self.d[n.lower()] = v


class Env:
    def __init__(self, *a, **k):
        pass

    def setParam(self, *a):
        pass

    def start(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def dispose(self):
        pass


class Model:
    instances = []

    def __init__(self, name="", env=None):
        self._vars = []
        self._constrs = []
        self._qconstrs = []
        self._objective = LinExpr()
        self._sense = GRB.MINIMIZE
        self._status = GRB.LOADED
        self._sols = []      # list of (obj, {var: Fraction})
        self.Params = _Params()
        self.params = self.Params
        self.__dict__["_gap"] = 0.
        Model.instances.append(self)

    # attributes ---------------------------------------------------------
    def __getattr__(self, n):
        k = n.lower()
        if k == "status":
            return self._status
        if k in ("objval", "objbound"):
            if not self._sols:
                raise AttributeError("Unable to retrieve attribute '%s'" % n)
            return out(self._sols[0][0])
        if k == "poolobjval":
            return out(self._sols[self._solnum()][0])
        if k == "solcount":
            return len(self._sols)
        if k == "numvars":
            return len(self._vars)
        if k == "numconstrs":
            return len(self._constrs)
        if k == "numbinvars":
            return sum(v.vtype == "B" for v in self._vars)
        if k == "numintvars":
            return sum(v.vtype in "BI" for v in self._vars)
        if k == "modelsense":
            return self._sense
        if k == "ismip":
            return int(self.numintvars > 0)
        if k == "runtime":
            return 0.
        if k == "mipgap":
            return 0.
        if k == "modelname":
            return ""
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if n.lower() == "modelsense":
            self.__dict__["_sense"] = v
        else:
            self.__dict__[n] = v

    def getAttr(self, name, objs=None):
        if objs is None:
            return getattr(self, name)
        if isinstance(objs, dict):
            return tupledict({k: getattr(v, name) for k, v in objs.items()})
        return [getattr(o, name) for o in objs]

    def setAttr(self, name, objs, vals=None):
        if vals is None:
            setattr(self, name, objs)
        else:
            for o, v in zip(objs, vals):
                setattr(o, name, v)

    def setParam(self, name, v):
        setattr(self.Params, str(name), v)

    def getParamInfo(self, name):
        return (name, float, getattr(self.Params, name), 0, 0, 0)

    def resetParams(self):
        self.Params = self.params = _Params()

    def _solnum(self):
        return int(self.Params.solutionnumber or 0)

    def _xval(self, v, k):
        if not self._sols:
            raise AttributeError("Unable to retrieve attribute 'x'")
        return out(self._sols[k][1][v])

    def update(self):
        pass

    def dispose(self):
        pass

    def write(self, *a):
        pass

    def computeIIS(self, *a):
        pass

    def terminate(self):
        pass

    def reset(self, *a):
        self._sols = []
        self._status = GRB.LOADED

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._constrs)

    def getVarByName(self, n):
        for v in self._vars:
            if v.varname == n:
                return v

    def getConstrByName(self, n):
        for c in self._constrs:
            if c.constrname == n:
                return c

    def getRow(self, c):
        return c.expr

    def getCoeff(self, c, v):
        return out(c.expr._coef(v))

    def chgCoeff(self, c, v, val):
        c.expr.terms = [t for t in c.expr.terms if t[1] is not v]
        c.expr.terms.append((scal(val), v))

    def getA(self):
        return np.array([[out(c.expr._coef(v)) for v in self._vars]
                         for c in self._constrs])

    def getObjective(self, *a):
        return self._objective

    # building -----------------------------------------------------------
    def addVar(self, lb=0., ub=GRB.INFINITY, obj=0., vtype="C", name="",
               column=None):
        if vtype == "B":
            lb = scal(lb)
            ub = scal(ub)
            if ub.c is not None and ub.c > 1:
                ub = SR(Fraction(1))
        v = Var(self, lb, ub, vtype, name, len(self._vars))
        self._vars.append(v)
        o = scal(obj)
        if o.c is None or o.c != 0:
            self._objective = self._objective + o * LinExpr(v)
        return v

    def addVars(self, *idx, lb=0., ub=GRB.INFINITY, obj=0., vtype="C",
                name=""):
        import itertools
        if len(idx) == 1 and isinstance(idx[0], (int, np.integer)):
            keys = list(range(int(idx[0])))
        elif len(idx) == 1:
            keys = list(idx[0])
        else:
            keys = list(itertools.product(*[
                range(i) if isinstance(i, (int, np.integer)) else i
                for i in idx]))

        def at(x, k, n):
            if isinstance(x, str) or _isnum(x) and not (isinstance(
                    x, (torch.Tensor, np.ndarray)) and x.ndim > 0):
                return x
            if isinstance(x, dict):
                return x[k]
            if isinstance(x, torch.Tensor):
                from symx import tensor as st
                return SR.const(st.obj(x).reshape(-1)[n])
            return x[n]
        r = tupledict()
        for n, k in enumerate(keys):
            nm = name if isinstance(name, str) else name[n]
            if isinstance(name, str) and name:
                nm = "%s[%s]" % (name, ",".join(map(str, k)) if isinstance(
                    k, tuple) else k)
            r[k] = self.addVar(at(lb, k, n), at(ub, k, n), at(obj, k, n),
                               at(vtype, k, n), nm)
        return r

    def addMVar(self, shape, lb=0., ub=GRB.INFINITY, obj=0., vtype="C",
                name=""):
        if isinstance(shape, int):
            shape = (shape, )
        n = int(np.prod(shape))
        f = lambda x: _mat(x).reshape(-1) if hasattr(x, "shape") and len(  # noqa
            x.shape) else x
        vs = self.addVars(n, lb=f(lb), ub=f(ub), obj=obj, vtype=vtype,
                          name=name)
        return MVar(vs.values(), shape)

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            if isinstance(sense, str) and not name:
                name = sense
            lhs, sense, rhs = lhs.lhs, lhs.sense, lhs.rhs
        return self._add(lhs, sense, rhs, name)

    def addConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, list):
            return [self._add(t.lhs, t.sense, t.rhs, name) for t in lhs]
        return self.addLConstr(lhs, sense, rhs, name)

    def addQConstr(self, lhs, sense=None, rhs=None, name=""):
        return self.addLConstr(lhs, sense, rhs, name)

    def addConstrs(self, gen, name=""):
        return tupledict({i: self.addConstr(c, name=name)
                          for i, c in enumerate(gen)})

    def _add(self, lhs, sense, rhs, name):
        sense = {"<=": "<", ">=": ">", "==": "="}.get(sense, sense)
        if isinstance(lhs, Var):
            lhs = LinExpr(lhs)
        elif not isinstance(lhs, (LinExpr, QuadExpr)):
            lhs = LinExpr(lhs)
        if isinstance(rhs, (Var, LinExpr, QuadExpr)):
            lhs = lhs - rhs
            r = SR(Fraction(0))
        else:
            r = scal(rhs)
        if isinstance(lhs, QuadExpr):
            e = QuadExpr(lhs)
            r = r - e.lin.const
            e.lin.const = SR(Fraction(0))
        else:
            e = LinExpr(lhs)
            r = r - e.const
            e.const = SR(Fraction(0))
        c = Constr(self, e, sense, r, name)
        (self._qconstrs if isinstance(e, QuadExpr) else
         self._constrs).append(c)
        return c

    def addMConstr(self, A, x, sense, b, name=""):
        A = _mat(A)
        b = _mat(b)
        x = list(self._vars) if x is None else list(x)
        if A.ndim != 2 or A.shape[1] != len(x) or A.shape[0] != b.size:
            raise GurobiError("addMConstr: dimension mismatch")
        bs = b.reshape(-1)
        ret = []
        for i in range(A.shape[0]):
            s = sense if isinstance(sense, str) and len(sense) == 1 or \
                sense in ("<=", ">=", "==") else sense[i]
            e = LinExpr()
            e.terms = [(scal(A[i, j]), x[j]) for j in range(len(x))
                       if not _zero(A[i, j])]
            ret.append(self._add(e, s, bs[i], name))
        return ret

    addMConstrs = addMConstr

    def remove(self, o):
        if isinstance(o, (list, tuple, MVar)):
            for q in list(o):
                self.remove(q)
        elif isinstance(o, dict):
            for q in list(o.values()):
                self.remove(q)
        elif isinstance(o, Constr):
            for L in (self._constrs, self._qconstrs):
                for i, c in enumerate(L):
                    if c is o:
                        del L[i]
                        break
        elif isinstance(o, Var):
            for i, c in enumerate(self._vars):
                if c is o:
                    del self._vars[i]
                    break

    def setObjective(self, expr, sense=None):
        if isinstance(expr, Var):
            expr = LinExpr(expr)
        elif not isinstance(expr, (LinExpr, QuadExpr)):
            expr = LinExpr(expr)
        self._objective = expr
        if sense is not None:
            self._sense = sense

    def setMObjective(self, Q, c, constant, xQ_L=None, xQ_R=None, xc=None,
                      sense=None):
        q = QuadExpr()
        if Q is not None:
            Q = _mat(Q)
            xl = list(xQ_L) if xQ_L is not None else self._vars
            xr = list(xQ_R) if xQ_R is not None else xl
            for i in range(Q.shape[0]):
                for j in range(Q.shape[1]):
                    if not _zero(Q[i, j]):
                        q.quad.append((scal(Q[i, j]), xl[i], xr[j]))
        if c is not None:
            q.lin.addTerms(list(_mat(c).reshape(-1)),
                           list(xc) if xc is not None else self._vars)
        q.lin.const = scal(constant)
        self._objective = q if q.quad else q.lin
        if sense is not None:
            self._sense = sense

    # callbacks ----------------------------------------------------------
    def cbGet(self, what):
        return self._cb[what]

    def cbGetSolution(self, v):
        return self._cb["sol"](v)

    cbGetNodeRel = cbGetSolution

    def cbSetSolution(self, vs, vals):
        self._cb.setdefault("set", []).append((vs, vals))

    def cbUseSolution(self):
        return 1e100

    def cbCut(self, *a):
        pass

    cbLazy = cbCut

    # solving ------------------------------------------------------------
    def symbolic(self):
        def s(x):
            return x.c is None
        if any(s(v._lb) or s(v._ub) for v in self._vars):
            return True
        for c in self._constrs:
            if s(c._rhs) or any(s(k) for k, _ in c.expr.terms):
                return True
        o = self._objective
        lin = o.lin if isinstance(o, QuadExpr) else o
        return s(lin.const) or any(s(k) for k, _ in lin.terms) or (
            isinstance(o, QuadExpr) and any(s(k) for k, _, _ in o.quad))

    def feasible_conds(self, val, tol=0, skip_binary=False):
        """List of conditions for an assignment {var: SR} to be feasible."""
        r = []
        for v in self._vars:
            x = val[v]
            if not _inf(v._lb):
                r.append(x >= v._lb - tol)
            if not _inf(v._ub):
                r.append(x <= v._ub + tol)
            if v.vtype == "B" and not skip_binary:
                r.append(num.bor(x == 0, x == 1))
        for c in self._constrs + self._qconstrs:
            r.append(c.holds(val, tol))
        return r

    def optimize(self, callback=None):
        import time
        stats["optimize"] += 1
        t = time.time()
        if self.symbolic():
            h = SYMBOLIC_OPTIMIZE[0]
            if h is None:
                raise Unsupported("optimising a program with symbolic data")
            h(self)
        elif FLOAT[0]:
            self._opt_float()
        else:
            self._opt_exact()
        stats["time"] += time.time() - t

    def _opt_exact(self):
        names = {v: z3.Real("v!%d" % i) for i, v in enumerate(self._vars)}
        val = {v: SR.atom(n) for v, n in names.items()}
        quad = isinstance(self._objective, QuadExpr) and self._objective.quad
        conds = self.feasible_conds(val)
        self._sols = []
        if any(c is False for c in conds):
            self._status = GRB.INFEASIBLE
            return
        obj = self._objective.eval(val)
        if quad:
            return self._opt_quad(conds, names, val, obj)
        npool = max(1, int(self.Params.poolsolutions or 1)) if int(
            self.Params.poolsearchmode or 0) == 2 else 1
        bins = [v for v in self._vars if v.vtype in "BI"]
        block = []
        while len(self._sols) < npool:
            o = z3.Optimize()
            o.set("timeout", 120000)
            for c in conds:
                if isinstance(c, SB):
                    o.add(c.e)
            for b in block:
                o.add(b)
            if obj.c is None:
                hd = o.maximize(obj.z()) if self._sense == -1 else \
                    o.minimize(obj.z())
            r = o.check()
            if r == z3.unknown:
                raise Unsupported("z3 optimize: unknown")
            if r == z3.unsat:
                if not self._sols:
                    self._status = GRB.INFEASIBLE
                break
            if obj.c is None:
                b = o.upper(hd) if self._sense == -1 else o.lower(hd)
                b = z3.simplify(b)
                if not (z3.is_rational_value(b) or z3.is_int_value(b)):
                    self._status = GRB.UNBOUNDED
                    self._sols = []
                    return
            m = o.model()
            sol = {}
            for v, n in names.items():
                q = m.eval(n, model_completion=True)
                sol[v] = Fraction(q.numerator_as_long(),
                                  q.denominator_as_long())
            ov = self._objective.eval({v: SR(f) for v, f in sol.items()})
            self._sols.append((ov.c, sol))
            if not bins:
                break
            block.append(z3.Or(*[names[v] != num._q(sol[v]) for v in bins]))
        if self._sols:
            self._status = GRB.OPTIMAL

    def _opt_quad(self, conds, names, val, obj):
        raise Unsupported("exact quadratic optimisation")

    def _opt_float(self):
        from scipy.optimize import milp, LinearConstraint, Bounds
        self._sols = []
        n = len(self._vars)
        idx = {v: i for i, v in enumerate(self._vars)}
        o = self._objective
        if isinstance(o, QuadExpr):
            if any(float(k) != 0 for k, _, _ in o.quad):
                raise Unsupported("float quadratic optimisation")
            o = o.lin
        c = np.zeros(n)
        for k, v in o.terms:
            c[idx[v]] += float(k.c)
        lb = np.array([float(v._lb.c) for v in self._vars])
        ub = np.array([float(v._ub.c) for v in self._vars])
        lb[lb <= -1e20] = -np.inf
        ub[ub >= 1e20] = np.inf
        A = np.zeros((len(self._constrs), n))
        lo = np.full(len(self._constrs), -np.inf)
        hi = np.full(len(self._constrs), np.inf)
        for i, q in enumerate(self._constrs):
            for k, v in q.expr.terms:
                A[i, idx[v]] += float(k.c)
            r = float(q._rhs.c)
            if q._sense in "<=":
                hi[i] = r
            if q._sense in ">=":
                lo[i] = r
        npool = max(1, int(self.Params.poolsolutions or 1)) if int(
            self.Params.poolsearchmode or 0) == 2 else 1
        bins = [v for v in self._vars if v.vtype in "BI"]
        Ax, lox, hix = A, lo, hi
        while len(self._sols) < npool:
            cons = [LinearConstraint(Ax, lox, hix)] if len(lox) else []
            r = milp(c * self._sense, constraints=cons,
                     bounds=Bounds(lb, ub),
                     integrality=np.array([int(v.vtype in "BI")
                                           for v in self._vars]))
            if r.status == 2 or (r.x is None and r.status == 4):
                if not self._sols:
                    self._status = GRB.INFEASIBLE
                break
            if r.status == 3:
                self._status = GRB.UNBOUNDED
                return
            if r.x is None:
                raise Unsupported("milp: " + r.message)
            sol = {v: float(r.x[i]) for v, i in idx.items()}
            ov = float(o.const.c) + float(c @ r.x)
            self._sols.append((ov, sol))
            if not bins:
                break
            row = np.zeros(n)
            cnt = 0
            for v in bins:
                if sol[v] > .5:
                    row[idx[v]] = 1
                    cnt += 1
                else:
                    row[idx[v]] = -1
            Ax = np.vstack([Ax, row]) if len(lox) else row[None]
            lox = np.append(lox, -np.inf)
            hix = np.append(hix, cnt - 1)
        if self._sols:
            self._status = GRB.OPTIMAL


SYMBOLIC_OPTIMIZE = [None]


def _zero(x):
    if isinstance(x, SR):
        return x.c is not None and x.c == 0
    try:
        return float(x) == 0
    except (TypeError, Unsupported):
        return False


def install():
    m = types.ModuleType("gurobipy")
    for n in ("GRB", "Model", "Var", "LinExpr", "QuadExpr", "MVar", "Constr",
              "TempConstr", "tupledict", "quicksum", "GurobiError", "Env",
              "MLinExpr"):
        setattr(m, n, globals()[n])
    m.abs_ = None
    m.read = None
    m.setParam = lambda *a: None
    m.__version__ = "stub"
    m.__all__ = ["GRB", "Model", "Var", "LinExpr", "QuadExpr", "quicksum"]
    sys.modules["gurobipy"] = m
    return m
