"""An answer depends on the question and the current parameters only, not on
what was asked before: the same query on an object with a past and on a new
one has to give the same programs, rows and numbers."""
import enum
import inspect
import numbers
import numpy as np
import torch
from symx import gurobi_stub as gs
from symx.num import SR, SB, Unsupported

from symx.lib import tt


class Dump:
    def __init__(self, h):
        self.h, self.shape, self.vals, self.seen = h, [], [], {}
        self.models = {}

    def num(self, v):
        self.shape.append("n")
        self.vals.append(v)

    def expr(self, e):
        q = {}
        if isinstance(e, gs.QuadExpr):
            self.shape.append("quad")
            self.any(e.quad)
            e = e.lin
        for c, v in e.terms:
            q[v._index] = q.get(v._index, 0) + c
        for i in sorted(q):
            self.shape.append(i)
            self.num(q[i])
        self.num(e.const)

    def model(self, m):
        if id(m) in self.models:
            self.shape.append(("model", self.models[id(m)]))
            return
        self.models[id(m)] = len(self.models)
        for v in m._vars:
            self.shape.append(("var", v.vtype))
            self.num(v._lb)
            self.num(v._ub)
        for c in m._constrs:
            self.shape.append(("row", c._sense))
            self.expr(c.expr)
            self.num(c._rhs)
        self.shape.append(("objective", m._sense))
        self.expr(m._objective)

    def any(self, o, depth=0):
        if depth > 12:
            raise Unsupported("deep result")
        if isinstance(o, (SR, SB)):
            self.num(o)
        elif o is None or isinstance(
                o, (bool, str, enum.Enum, np.bool_, np.dtype, torch.dtype)):
            self.shape.append(("value", str(o)))
        elif isinstance(o, numbers.Number):
            self.num(o)
        elif isinstance(o, torch.nn.Module) or callable(o) and not isinstance(
                o, (torch.Tensor, gs.Var)):
            self.shape.append(("function", type(o).__name__))
        elif isinstance(o, (torch.Tensor, np.ndarray)):
            a = self.h.elems(o) if isinstance(
                o, torch.Tensor) else np.asarray(o)
            self.shape.append(("array", tuple(a.shape)))
            for v in a.reshape(-1):
                self.any(v, depth + 1)
        elif isinstance(o, gs.Var):
            self.model(o._model)
            self.shape.append(("var", self.models[id(o._model)], o._index))
        elif isinstance(o, (gs.LinExpr, gs.QuadExpr)):
            self.expr(o)
        elif isinstance(o, gs.Model):
            self.model(o)
        elif isinstance(o, (list, tuple)):
            self.shape.append((type(o).__name__, len(o)))
            for v in o:
                self.any(v, depth + 1)
        elif isinstance(o, (set, frozenset)):
            self.shape.append(("set", str(sorted(o))))
        elif isinstance(o, dict):
            ks = list(o)
            for k in ks:
                if isinstance(k, str):
                    self.shape.append(k)
                self.any(o[k], depth + 1)
        elif hasattr(o, "__dict__"):
            if id(o) in self.seen:
                self.shape.append(("again", self.seen[id(o)]))
                return
            self.seen[id(o)] = len(self.seen)
            self.shape.append(type(o).__name__)
            for k in sorted(o.__dict__):
                if "name" in k:
                    continue
                self.shape.append(k)
                self.any(o.__dict__[k], depth + 1)
        else:
            raise Unsupported("result of type %s" % type(o))


def same(h, a, b, msg):
    p, q = Dump(h), Dump(h)
    p.any(a)
    q.any(b)
    h.true(p.shape == q.shape, msg + ": form of the answer")
    if p.shape != q.shape:
        return
    for u, v in zip(p.vals, q.vals):
        if u is v:
            continue
        if isinstance(u, SB) or isinstance(v, SB):
            h.true(u == v, msg)
            continue
        try:
            if not h.symbolic and float(u) == float(v):
                continue            # infinities
            if isinstance(u, (float, int)) and u == v:
                continue
        except (TypeError, ValueError):
            pass
        h.eq(u, v, msg)


def perturb(h, nets, name="past"):
    """Give the networks other parameters; returns the way back."""
    keep = [[p.detach().clone() for p in n.parameters()] for n in nets]
    r = np.random.RandomState(5)
    with torch.no_grad():
        for n in nets:
            for p in n.parameters():
                q = r.randint(-8, 9, tuple(p.shape)) / 8.
                p.data = tt(q)

    def back(how="data"):
        with torch.no_grad():
            for n, k in zip(nets, keep):
                for p, q in zip(n.parameters(), k):
                    if how == "data":
                        p.data = q.clone()
                    else:
                        p.copy_(q)
    return back


def history(make, past, query, nets=None, how="data", args=None):
    """make(h) or make(h, a) -> object; past(h, o, a) asks other questions; query(h, o, a)
    is the question; a = args(h) what is asked about; nets(o) are networks
    which have other parameters at first."""
    def f(h):
        a = args(h) if args else None

        def new():
            if len(inspect.signature(make).parameters) == 2:
                return make(h, a)
            return make(h)
        o = new()
        ns = nets(o) if nets else []
        if ns:
            back = perturb(h, ns)
            past(h, o, a)
            query(h, o, a)
            back(how)
        past(h, o, a)
        p = query(h, o, a)
        q = query(h, new(), a)
        same(h, p, q, "an answer does not depend on earlier ones")
        same(h, query(h, o, a), q, "asking again gives the same answer")
        h.cover("asked")
    return f


def boxes(n, sym=True, first=(-1., .75), other=(-.5, 1.25)):
    """The box asked about and the one asked about before."""
    def f(h):
        t = torch.ones(n, dtype=torch.float64)
        r = [first[0] * t, first[1] * t, other[0] * t, other[1] * t]
        if sym:
            r[0] = h.tensor("lo", n, -2, 2)
            r[1] = h.tensor("up", n, -2, 2)
            h.assume([p <= q for p, q in zip(h.elems(r[0]), h.elems(r[1]))])
        return r
    return f


def pattern_past(widths, seed, slope, ask, sym=True, how="data"):
    """Of a ReLUFreePattern; ask(h, pattern, lo, up)."""
    from symx import loader
    from symx.lib import mknet

    def mk(h):
        m = loader.module("relu_to_optimization")
        return m.ReLUFreePattern(mknet(widths, seed, slope), torch.float64)
    return history(mk, lambda h, p, b: ask(h, p, b[2], b[3]),
                   lambda h, p, b: ask(h, p, b[0], b[1]),
                   lambda p: [p.model], how, boxes(widths[0], sym=sym))
