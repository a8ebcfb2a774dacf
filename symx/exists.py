"""For-all/exists queries over linear programs with binaries.

forall x in X exists (s, z): rows hold.  CEGIS over the binary pattern with
the continuous variables projected out (equalities, then Fourier-Motzkin), so
that each accepted pattern removes a polyhedron of x from the search.
"""
from fractions import Fraction

from symx import num
from symx.num import SR, SB, Unsupported, z3


class Row:
    """sum coef[v]*v + rest  (op)  0, op in '<=', '='."""
    __slots__ = ("co", "rest", "eq")

    def __init__(self, co, rest, eq):
        self.co = {v: c for v, c in co.items()
                   if not (c.c is not None and c.c == 0)}
        self.rest = rest
        self.eq = eq


def _subst_row(r, v, co, rest):
    """Replace v by sum(co)+rest in r."""
    k = r.co[v]
    n = dict(r.co)
    del n[v]
    for w, c in co.items():
        n[w] = n.get(w, SR(Fraction(0))) + k * c
    return Row(n, r.rest + k * rest, r.eq)


def project(rows, vs, limit=4000):
    """Conditions (SB/bool) on the symbols for which `vs` can be chosen."""
    rows = list(rows)
    vs = set(vs)
    conds = []
    while True:
        # constant rows become conditions
        nr = []
        seen = set()
        for r in rows:
            if not r.co:
                conds.append((r.rest == 0) if r.eq else (r.rest <= 0))
                if conds[-1] is False:
                    return [False]
                continue
            key = _key(r)
            if key is not None:
                if key in seen:
                    continue
                seen.add(key)
            nr.append(r)
        rows = nr
        if not rows:
            return [c for c in conds if c is not True]
        # equalities hidden in opposite inequalities
        hit = None
        for r in rows:
            if r.eq and any(c.c is not None for c in r.co.values()):
                hit = r
                break
        if hit is None:
            byk = {}
            for r in rows:
                k = _key(r)
                if k is not None:
                    byk[k] = r
            for r in rows:
                k = _key(r)
                if k is None:
                    continue
                o = byk.get(_negkey(r))
                if o is not None:
                    hit = Row(r.co, r.rest, True)
                    rows = [q for q in rows if q is not r and q is not o]
                    rows.append(hit)
                    break
        if hit is not None:
            v, c = min(((v, c) for v, c in hit.co.items()
                        if c.c is not None), key=lambda t: t[0])
            co = {w: -(k / c) for w, k in hit.co.items() if w != v}
            rest = -(hit.rest / c)
            rows = [_subst_row(r, v, co, rest) if v in r.co else r
                    for r in rows if r is not hit]
            continue
        # Fourier-Motzkin on the cheapest variable
        best = None
        for v in {w for r in rows for w in r.co}:
            up = lo = 0
            bad = False
            for r in rows:
                c = r.co.get(v)
                if c is None:
                    continue
                if c.c is None or r.eq:
                    bad = True
                    break
                if c.c > 0:
                    up += 1
                else:
                    lo += 1
            if bad:
                continue
            cost = up * lo - up - lo
            if best is None or cost < best[0]:
                best = (cost, v)
        if best is None:
            raise Unsupported("projection with symbolic coefficients")
        v = best[1]
        ups = [r for r in rows if v in r.co and r.co[v].c > 0]
        los = [r for r in rows if v in r.co and r.co[v].c < 0]
        rows = [r for r in rows if v not in r.co]
        for u in ups:
            for w in los:
                a, b = u.co[v], -w.co[v]
                co = {}
                for q, c in u.co.items():
                    if q != v:
                        co[q] = co.get(q, SR(Fraction(0))) + c / a
                for q, c in w.co.items():
                    if q != v:
                        co[q] = co.get(q, SR(Fraction(0))) + c / b
                rows.append(Row(co, u.rest / a + w.rest / b, False))
        if len(rows) > limit:
            raise Unsupported("projection too large")


def _key(r):
    if any(c.c is None for c in r.co.values()):
        return None
    items = sorted((v, c.c) for v, c in r.co.items())
    k = abs(items[0][1])
    rest = r.rest / SR(k)
    return (r.eq, tuple((v, c / k) for v, c in items), rest.key())


def _negkey(r):
    items = sorted((v, c.c) for v, c in r.co.items())
    k = abs(items[0][1])
    rest = -(r.rest / SR(k))
    return (r.eq, tuple((v, -c / k) for v, c in items), rest.key())


def rows_of(model, fixed):
    """(rows, binaries, continuous) of a recorded program.

    Free variables are keyed by their index; `fixed` maps Var -> SR."""
    rows = []
    idx = {v: i for i, v in enumerate(model._vars)}
    free = [v for v in model._vars if v not in fixed]

    def add(terms, const, op):
        co = {}
        rest = const
        for c, v in terms:
            if v in fixed:
                rest = rest + c * fixed[v]
            else:
                i = idx[v]
                co[i] = co.get(i, SR(Fraction(0))) + c
        if op == ">":
            co = {k: -c for k, c in co.items()}
            rest = -rest
        rows.append(Row(co, rest, op == "="))
    one = SR(Fraction(1))
    for v in model._vars:
        if not (v._lb.c is not None and abs(v._lb.c) >= 1e20):
            add([(one, v)], -v._lb, ">")
        if not (v._ub.c is not None and abs(v._ub.c) >= 1e20):
            add([(one, v)], -v._ub, "<")
    for c in model._constrs:
        add(c.expr.terms, c.expr.const - c._rhs, c._sense)
    bins = [idx[v] for v in free if v.vtype in "BI"]
    cont = [idx[v] for v in free if v.vtype not in "BI"]
    return rows, bins, cont


def fix_rows(rows, vals):
    out = []
    for r in rows:
        co = {}
        rest = r.rest
        for v, c in r.co.items():
            if v in vals:
                rest = rest + c * SR(vals[v])
            else:
                co[v] = c
        out.append(Row(co, rest, r.eq))
    return out
