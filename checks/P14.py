"""Losses at sampled states."""
import numpy as np
import torch
from symx.driver import Registry
from symx.history import history
from symx import loader
from symx.lib import AND, OR, near, mknet, netfun, vmax, vmin, tt
from symx.lyapsys import (System, params, untouched, transform, candidate,
                          l1err, nunits, consistent, directional,
                          l1consistent, l1directional, patterns, inbox)

HARNESSES = R = Registry()
BOUNDS = ("Up to three samples, state dimension 1-2, certificate networks "
          "with one to three hidden units in up to two layers and fixed "
          "rational weights; fixed weights, rates and margins (positive, "
          "zero, negative); sampled states, next states, derivatives and "
          "sample weights symbolic; every reduction and decrease form.")
ASSUMPTIONS = ["real arithmetic for float64",
               "sampled states of piecewise-affine systems lie in the "
               "system's modes",
               "where a candidate has several one-sided derivatives the loss "
               "may use any slope between them"]
NETS = {"one": (2, ), "deep": (2, 1), "single": (1, ), "three": (3, ),
        "wide": (4, 3), "long": (2, 2, 2)}


def reduce(v, how, w=None):
    n = len(v)
    if w is not None:
        return sum(a * b for a, b in zip(w, v)) * (1. / n)
    if how == "mean":
        return sum(v) * (1. / n)
    if how == "max":
        return vmax(*v) if n > 1 else v[0]
    return None


def hinges(vals, margin):
    return [vmax(v + margin, v * 0) for v in vals]


def same(h, got, vals, how, margin, w=None, scale=1.):
    """The loss is the reduction of the hinges of vals."""
    g = h.elems(got)
    h.true(g.size == 1, "a scalar loss")
    g = g.reshape(-1)[0]
    hs = hinges(vals, margin)
    if how == "4norm":
        h.ge(g, 0, "non-negative")
        h.eq((g * (1. / scale))**4, sum(v**4 for v in hs), "loss", 1e-6)
    else:
        h.eq(g, reduce(hs, how, w) * scale, "loss")
    h.cover("active", OR([v > 0 for v in hs]))
    h.cover("satisfied", AND([v <= 0 for v in hs]))
    if len(hs) > 1:
        h.cover("mixed", AND(OR([v > 0 for v in hs]),
                             OR([v <= 0 for v in hs])))


def system(h, kind, nx, discrete, net, trans, seed=0):
    m = loader.module("lyapunov" if discrete else "continuous_time_lyapunov")
    S = System(h, kind, nx, discrete)
    phi = mknet((nx, ) + NETS[net] + (1, ), seed or 91 + len(NETS[net]), .1)
    hyb = kind.startswith("hybrid")
    L = (m.LyapunovDiscreteTimeHybridSystem if discrete else
         m.LyapunovContinuousTimeHybridSystem if hyb else
         m.LyapunovContinuousTimeSystem)(S.s, phi)
    tR, nR = transform(trans, nx)
    return m, S, L, phi, tR, nR


def samples(h, name, S, N, wide=False):
    lo, up = (S.lo - .5, S.up + .5) if wide else (S.lo, S.up)
    x = np.array([inbox(h, "%s%d" % (name, i), lo, up) for i in range(N)],
                 dtype=object).reshape((N, S.nx))
    return x


def kwargs(tR, margin, how, tw=None):
    kw = {"R": tR, "reduction": how}
    if margin is not None:
        kw["margin"] = margin
    if tw is not None:
        kw["weight"] = tw
    return kw


def weights(h, N, on):
    if not on:
        return None, None
    w = h.reals("w", N, 0, 3)
    return w, h.as_tensor(w)


def positivity(kind, nx, discrete, net, trans, N, how, margin, lam, eps,
               weight=False):
    def f(h):
        m, S, L, phi, tR, nR = system(h, kind, nx, discrete, net, trans)
        p0 = params(phi)
        x = samples(h, "x", S, N, True)
        tx = h.as_tensor(x)
        w, tw = weights(h, N, weight)
        v = L.lyapunov_positivity_loss_at_samples(
            S.txe, tx, lam, eps, **kwargs(tR, margin, how, tw))
        ex = [eps * l1err(a, S.xe, nR) - candidate(phi, a, S.xe, lam, nR)
              for a in x]
        same(h, v, ex, how, margin or 0., w)
        h.eq(h.elems(tx), x, "the samples are left alone")
        untouched(h, (phi, ), p0)
    return f


for k, nx, disc, net, t, N, how, mg, lam, eps, w in (
        ("auto", 2, True, "one", "none", 2, "mean", .125, .5, .25, False),
        ("auto", 2, True, "deep", "tall", 2, "mean", 0., .25, .5, True),
        ("auto_eq", 2, False, "one", "sq", 2, "max", .25, .25, .125, False),
        ("auto", 1, True, "three", "none", 3, "max", .1875, .5, .25, False),
        ("hybrid", 1, True, "one", "diag", 2, "4norm", .25, .5, .25, False),
        ("hybrid", 2, False, "single", "eye", 3, "mean", None, .5, 1., False),
        ("auto", 2, True, "one", "tall", 1, "mean", 0., .5, .25, False),
        ("auto_eq", 2, False, "deep", "diag", 1, "max", .5, .5, .25, False),
        ("auto", 2, True, "single", "sq", 1, "4norm", .5, .5, .25, False),
        ("auto", 1, True, "one", "none", 1, "mean", .5, .5, .25, True)):
    R.put(positivity(k, nx, disc, net, t, N, how, mg, lam, eps, w),
          "positivity_%s%s%d%s_%s_%d%s" % (
              k, "" if disc else "_ct", nx, net, t, N, how),
          "%d samples, reduction %s, margin %s" % (N, how, mg))


def form(m, name):
    return getattr(loader.module("lyapunov").ConvergenceEps, name)


def decrease(phi, x, y, xe, lam, eps, f, nR):
    V = lambda v: candidate(phi, v, xe, lam, nR)  # noqa
    if f == "Asymp":
        return V(y) - V(x) + eps * l1err(x, xe, nR)
    d = V(y) - V(x) + eps * V(x)
    return d if f == "ExpLower" else -d


def discrete_next(nx, net, trans, N, fm, how, margin, lam, eps, weight=False):
    """Given next states."""
    def f(h):
        m, S, L, phi, tR, nR = system(h, "auto", nx, True, net, trans)
        p0 = params(phi)
        x, y = samples(h, "x", S, N, True), samples(h, "y", S, N, True)
        tx, ty = h.as_tensor(x), h.as_tensor(y)
        w, tw = weights(h, N, weight)
        v = L.lyapunov_derivative_loss_at_samples_and_next_states(
            lam, eps, tx, ty, S.txe, form(m, fm),
            **kwargs(tR, margin, how, tw))
        ex = [decrease(phi, a, b, S.xe, lam, eps, fm, nR)
              for a, b in zip(x, y)]
        same(h, v, ex, how, margin or 0., w)
        h.eq(h.elems(tx), x, "the samples are left alone")
        h.eq(h.elems(ty), y, "the next states are left alone")
        untouched(h, (phi, ), p0)
    return f


for nx, net, t, N, fm, how, mg, lam, eps, w in (
        (2, "one", "none", 2, "ExpLower", "mean", .125, .5, .25, False),
        (1, "deep", "tall", 3, "ExpUpper", "mean", 0., .25, .5, True),
        (2, "single", "sq", 2, "Asymp", "mean", None, .75, .125, False),
        (1, "one", "diag", 2, "ExpUpper", "max", .25, .5, 1.25, False),
        (2, "single", "tall", 2, "ExpLower", "max", -.25, .5, .25, False),
        (1, "three", "sq", 2, "Asymp", "max", .5, .5, .25, False),
        (1, "single", "none", 2, "ExpLower", "4norm", .25, .5, .25, False),
        (1, "single", "diag", 2, "Asymp", "4norm", 0., .5, .25, False),
        (2, "one", "sq", 1, "ExpUpper", "4norm", .125, .5, .25, False),
        (2, "one", "diag", 1, "ExpLower", "mean", .125, .5, .25, True),
        (2, "one", "tall", 1, "Asymp", "max", .125, .5, .25, False),
        (1, "one", "diag", 2, "Asymp", "mean", .125, .5, .25, True),
        (2, "one", "tall", 2, "ExpLower", "mean", 0., .5, .25, True)):
    R.put(discrete_next(nx, net, t, N, fm, how, mg, lam, eps, w),
          "next%d%s_%s_%s_%d%s%s" % (nx, net, t, fm, N, how,
                                     "_w" if w else ""),
          "%d samples, form %s, reduction %s, margin %s" % (N, fm, how, mg))


def discrete_step(kind, nx, net, trans, N, fm, how, margin, lam, eps,
                  weight=False, equ=None):
    """Next states of the system."""
    def f(h):
        m, S, L, phi, tR, nR = system(h, kind, nx, True, net, trans)
        p0 = params(phi, S.net)
        x = samples(h, "x", S, N)
        tx = h.as_tensor(x)
        w, tw = weights(h, N, weight)
        v = L.lyapunov_derivative_loss_at_samples(
            lam, eps, tx, S.txe, form(m, fm), **kwargs(tR, margin, how, tw))
        ex = []
        for a in x:
            y = [n for q, n in S.succ(a) if _true(q)]
            ex.append([decrease(phi, a, b, S.xe, lam, eps, fm, nR)
                       for b in y])
        choose(h, v, ex, how, margin or 0., w)
        h.eq(h.elems(tx), x, "the samples are left alone")
        untouched(h, (phi, S.net), p0)
    return f


def _true(q):
    return bool(q) if not isinstance(q, bool) else q


def choose(h, v, ex, how, margin, w=None):
    """ex: admissible values for each sample."""
    if all(len(e) == 1 for e in ex):
        return same(h, v, [e[0] for e in ex], how, margin, w)
    import itertools
    g = h.elems(v).reshape(-1)
    h.true(len(g) == 1, "a scalar loss")
    ok = []
    for c in itertools.product(*ex):
        hs = hinges(c, margin)
        if how == "4norm":
            ok.append(AND(g[0] >= 0, near(g[0]**4, sum(a**4 for a in hs))))
        else:
            ok.append(near(g[0], reduce(hs, how, w)))
    h.true(OR(ok), "loss for some admissible choice")
    h.cover("several")


for k, nx, net, t, N, fm, how, mg, lam, eps, w in (
        ("auto", 2, "one", "none", 2, "ExpLower", "mean", .125, .5, .25, 0),
        ("auto_eq", 1, "single", "sq", 2, "Asymp", "max", 0., .5, .25, 0),
        ("auto_res", 1, "single", "tall", 2, "ExpUpper", "mean", .0625, .5, .25,
         1),
        ("hybrid", 1, "one", "none", 2, "ExpLower", "mean", -.1875, .5, .25, 0),
        ("hybrid", 2, "single", "diag", 2, "Asymp", "max", None, .5, .25, 0),
        ("hybrid", 1, "single", "diag", 1, "ExpUpper", "4norm", -.125, .5, .25,
         0),
        ("feedback", 1, "single", "none", 2, "ExpLower", "max", .25, .5, .25,
         0),
        ("feedback_lin", 1, "single", "sq", 2, "Asymp", "mean", -.125, .5, .25,
         1)):
    R.put(discrete_step(k, nx, net, t, N, fm, how, mg, lam, eps, bool(w)),
          "step_%s%d%s_%s_%s_%d%s" % (k, nx, net, t, fm, N, how),
          "%d samples, form %s, reduction %s, margin %s" % (N, fm, how, mg))


def slopes(phi, x, d, xe, nR):
    """Admissible derivatives of the candidate's two parts along d."""
    a = [directional(phi, p, d)[0] for p in patterns(nunits(phi))
         if _true(consistent(phi, x, p))]
    b = [l1directional(nR, s, d) for s in patterns(nR.shape[0])
         if _true(l1consistent(x, xe, nR, s))]
    return a, b


def cont_values(phi, x, d, xe, lam, eps, fm, nR):
    """Values for the one-sided slopes at the state."""
    r = []
    a, b = slopes(phi, x, d, xe, nR)
    for v in a:
        for w in b:
            D = v + lam * w
            if fm == "Asymp":
                r.append(D + eps * l1err(x, xe, nR))
            else:
                D = D + eps * candidate(phi, x, xe, lam, nR)
                r.append(D if fm == "ExpLower" else -D)
    return r


def cont_value(*a):
    r = cont_values(*a)
    return r[0] if len(r) == 1 else None


def between(h, got, ex, how, margin, w):
    """At kinks: a slope between the one-sided ones."""
    g = h.elems(got).reshape(-1)
    h.true(len(g) == 1, "a scalar loss")
    lo = hinges([vmin(*e) for e in ex], margin)
    up = hinges([vmax(*e) for e in ex], margin)
    if how == "4norm":
        h.ge(g[0], 0, "non-negative")
        v, l, u = g[0]**4, sum(a**4 for a in lo), sum(a**4 for a in up)
    else:
        v, l, u = g[0], reduce(lo, how, w), reduce(up, how, w)
    h.ge(v, l, "loss at a kink", 1e-6)
    h.le(v, u, "loss at a kink", 1e-6)
    h.cover("kink")


def continuous(kind, nx, net, trans, N, fm, how, margin, lam, eps,
               weight=False, step=False, tol=None):
    def f(h):
        m, S, L, phi, tR, nR = system(h, kind, nx, False, net, trans)
        p0 = params(phi, S.net)
        x = samples(h, "x", S, N)
        tx = h.as_tensor(x)
        w, tw = weights(h, N, weight)
        kw = kwargs(tR, margin, how, tw)
        if tol is not None:
            kw["zero_tol"] = tol
        a = (lam, eps, tx)
        if step:
            ys = []
            for v in x:
                y = [n for q, n in S.succ(v) if _true(q)]
                h.assume(len(y) == 1)
                ys.append(y[0])
            y = np.array(ys, dtype=object)
            if S.ms is not None:
                v = L.lyapunov_derivative_loss_at_samples(
                    *a, S.txe, form(m, fm), **kw)
            else:
                v = L.lyapunov_derivative_loss_at_samples_and_next_states(
                    lam, eps, tx, S.s.step_forward(tx), S.txe, form(m, fm),
                    **kw)
        else:
            y = np.array([h.reals("d%d" % i, nx, -2, 2) for i in range(N)],
                         dtype=object)
            ty = h.as_tensor(y)
            v = L.lyapunov_derivative_loss_at_samples_and_next_states(
                *a, ty, S.txe, form(m, fm), **kw)
            h.eq(h.elems(ty), y, "the derivatives are left alone")
        ex = [cont_values(phi, p, d, S.xe, lam, eps, fm, nR)
              for p, d in zip(x, y)]
        if any(len(e) > 1 for e in ex):
            h.assume(N == 1)
            between(h, v, ex, how, margin or 0., w)
        else:
            same(h, v, [e[0] for e in ex], how, margin or 0., w)
        h.eq(h.elems(tx), x, "the samples are left alone")
        h.true(not tx.requires_grad, "the samples track no gradient")
        untouched(h, (phi, S.net), p0)
    return f


E_, U_, A_ = "ExpLower", "ExpUpper", "Asymp"
for k, nx, net, t, N, fm, how, mg, lam, eps, w, st in (
        ("auto", 2, "one", "none", 1, E_, "mean", .125, .5, .25, 0, 0),
        ("auto", 1, "deep", "sq", 2, E_, "mean", 0., .25, .5, 1, 0),
        ("auto", 2, "single", "sq", 2, E_, "max", .25, .25, .5, 0, 0),
        ("auto", 1, "single", "diag", 2, E_, "4norm", .25, .25, .5, 0, 0),
        ("auto", 2, "single", "diag", 1, E_, "max", None, .25, .5, 0, 0),
        ("auto", 1, "one", "none", 1, E_, "4norm", -.25, .25, .5, 0, 0),
        ("auto_eq", 2, "single", "tall", 2, E_, "mean", -.5, .25, .5, 0, 1),
        ("auto_res", 1, "one", "sq", 2, E_, "max", -.03125, .25, .5, 0, 1),
        ("pend", 2, "single", "eye", 1, E_, "mean", .25, .25, .5, 1, 1),
        ("hybrid", 2, "single", "none", 2, E_, "mean", .125, .5, .25, 0, 0),
        ("hybrid", 1, "one", "eye", 2, U_, "mean", 0., .5, .25, 0, 0),
        ("hybrid", 2, "one", "none", 1, A_, "mean", .25, .5, .25, 0, 0),
        ("hybrid", 1, "single", "none", 2, A_, "mean", -.25, .5, .25, 0, 1),
        ("hybrid", 2, "single", "eye", 1, E_, "mean", None, .5, .25, 0, 1),
        ("hybrid", 1, "deep", "none", 2, U_, "mean", .25, .5, .25, 0, 1)):
    R.put(continuous(k, nx, net, t, N, fm, how, mg, lam, eps, bool(w),
                     bool(st)),
          "ct_%s%d%s_%s_%s_%d%s%s" % (k, nx, net, t, fm, N, how,
                                      "_step" if st else ""),
          "%d samples, form %s, reduction %s, margin %s" % (N, fm, how, mg))


def gradients(discrete, nx, net, trans, N, how, margin, lam, eps, pos=False):
    """The loss pulls on the output weights as its hinges do."""
    def f(h):
        m, S, L, phi, tR, nR = system(h, "auto", nx, discrete, net, trans)
        x = samples(h, "x", S, N)
        tx = h.as_tensor(x)
        y = np.array([h.reals("d%d" % i, nx, -1, 1) for i in range(N)],
                     dtype=object)
        ty = h.as_tensor(y)
        kw = kwargs(tR, margin, how)
        hid = phi[:-1]
        if pos:
            v = L.lyapunov_positivity_loss_at_samples(S.txe, tx, lam, eps,
                                                      **kw)
            val = [eps * l1err(a, S.xe, nR) - candidate(
                phi, a, S.xe, lam, nR) for a in x]
            g = [-(netfun(hid, a) - netfun(hid, S.xe)) for a in x]
        else:
            v = L.lyapunov_derivative_loss_at_samples_and_next_states(
                lam, eps, tx, ty, S.txe, form(m, "ExpLower"), **kw)
            if discrete:
                val = [decrease(phi, a, b, S.xe, lam, eps, "ExpLower", nR)
                       for a, b in zip(x, y)]
                g = [netfun(hid, b) - netfun(hid, S.xe) + (eps - 1) * (
                    netfun(hid, a) - netfun(hid, S.xe))
                    for a, b in zip(x, y)]
            else:
                val, g = [], []
                for a, d in zip(x, y):
                    ps = [p for p in patterns(nunits(phi))
                          if _true(consistent(phi, a, p))]
                    c = cont_value(phi, a, d, S.xe, lam, eps, "ExpLower", nR)
                    h.assume(c is not None and len(ps) == 1)
                    val.append(c)
                    g.append(directional(hid, ps[0], d) + eps * (
                        netfun(hid, a) - netfun(hid, S.xe)))
        act = [_true(c + margin > 0) for c in val]
        h.assume([c + margin != 0 for c in val])
        W = phi[-1].weight
        gr, = torch.autograd.grad(v, W)
        gr = h.elems(gr).reshape(-1)
        n = len(gr)
        if how == "mean":
            ex = [sum((c[j] if a else c[j] * 0) for a, c in zip(act, g)) * (
                1. / N) for j in range(n)]
            h.eq(gr, ex, "gradient of the output weights")
        else:
            top = [c + margin if a else c * 0 for c, a in zip(val, act)]
            k = [_true(AND([top[i] > top[j] for j in range(N) if j != i]))
                 for i in range(N)]
            if any(k):
                i = k.index(True)
                ex = [g[i][j] if act[i] else g[i][j] * 0 for j in range(n)]
                h.eq(gr, ex, "gradient of the output weights")
        h.cover("active" if any(act) else "inactive")
    return f


for disc, nx, net, t, N, how, mg, pos in (
        (True, 2, "single", "sq", 2, "mean", .125, True),
        (True, 1, "one", "none", 2, "max", .125, True),
        (True, 2, "one", "none", 1, "mean", .125, False),
        (True, 1, "single", "tall", 2, "max", .125, False),
        (False, 2, "single", "none", 2, "mean", .125, False),
        (False, 1, "deep", "diag", 1, "mean", .25, False)):
    R.put(gradients(disc, nx, net, t, N, how, mg, .5, .25, pos),
          "gradient_%s%d%s_%d%s" % ("pos" if pos else "dt" if disc else "ct",
                                    nx, net, N, how))


def barrier(nx, net, N, how, margin, eps, c):
    def f(h):
        b = loader.module("barrier")
        S = System(h, "auto", nx, True)
        phi = mknet((nx, ) + NETS[net] + (1, ), 95, .1)
        B = b.DiscreteTimeBarrier(S.s, phi)
        p0 = params(phi)
        x, y = samples(h, "x", S, N, True), samples(h, "y", S, N, True)
        tx, ty = h.as_tensor(x), h.as_tensor(y)
        kw = {} if margin is None else {"margin": margin}
        if how != "default":
            kw["reduction"] = how
        v = B.derivative_loss_at_samples_and_next_states(
            S.txe, c, eps, tx, ty, **kw)
        hv = lambda a: (netfun(phi, a) - netfun(phi, S.xe))[0] + c  # noqa
        ex = [(1 - eps) * hv(a) - hv(d) for a, d in zip(x, y)]
        same(h, v, ex, "mean" if how == "default" else how, margin or 0.)
        h.eq(h.elems(tx), x, "the samples are left alone")
        h.eq(h.elems(ty), y, "the next states are left alone")
        untouched(h, (phi, ), p0)
    return f


for nx, net, N, how, mg, eps, c in (
        (2, "one", 2, "mean", .125, .25, .5),
        (1, "deep", 3, "max", .75, 1.5, .5),
        (1, "single", 2, "4norm", .125, .5, .25),
        (2, "three", 1, "default", None, .25, .5),
        (2, "one", 1, "4norm", -.125, .25, .125),
        (1, "one", 1, "max", .5, .25, .125)):
    R.put(barrier(nx, net, N, how, mg, eps, c),
          "barrier%d%s_%d%s" % (nx, net, N, how),
          "%d samples, reduction %s, margin %s" % (N, how, mg))


def trainer(h):
    return loader.module("train_lyapunov_barrier").Trainer()


def lyap_total(kind, nx, net, discrete, how, np_, nd, wp, wd, fm="ExpLower"):
    """The trainer's pair of sample losses."""
    def f(h):
        m, S, L, phi, tR, nR = system(h, kind, nx, discrete, net, "sq")
        ro = loader.module("r_options")
        t = trainer(h)
        lam = .5
        t.add_lyapunov(L, lam, S.txe, ro.FixedROptions(tR))
        t.lyapunov_positivity_epsilon, t.lyapunov_derivative_epsilon = \
            .25, .125
        t.lyapunov_positivity_sample_margin = .0625
        t.lyapunov_derivative_sample_margin = -.125
        t.lyapunov_derivative_eps_type = form(m, fm)
        t.sample_loss_reduction = how
        x = samples(h, "x", S, np_)
        z, y = samples(h, "z", S, nd), samples(h, "y", S, nd)
        T = lambda a, n: h.as_tensor(a) if n else torch.zeros(  # noqa
            (0, nx), dtype=torch.float64)
        a, b = t.lyapunov_sample_loss(T(x, np_), T(z, nd), T(y, nd), wp, wd)
        if wp == 0 or np_ == 0:
            h.eq(h.elems(a).reshape(-1), [0.], "switched off")
        else:
            ex = [.25 * l1err(v, S.xe, nR) - candidate(phi, v, S.xe, lam, nR)
                  for v in x]
            same(h, a, ex, how, .0625, scale=wp)
        if wd == 0 or nd == 0:
            h.eq(h.elems(b).reshape(-1), [0.], "switched off")
            h.cover("off")
            return
        if discrete:
            ex = [decrease(phi, p, q, S.xe, lam, .125, fm, nR)
                  for p, q in zip(z, y)]
        else:
            ex = [cont_value(phi, p, q, S.xe, lam, .125, fm, nR)
                  for p, q in zip(z, y)]
            h.assume(all(e is not None for e in ex))
        same(h, b, ex, how, -.125, scale=wd)
    return f


for i, a in enumerate((
        ("auto", 1, "single", True, "mean", 2, 1, .5, 2.),
        ("auto", 1, "single", True, "max", 1, 2, 1.5, .75, "Asymp"),
        ("auto", 1, "single", True, "4norm", 1, 1, .5, .25, "ExpUpper"),
        ("auto_eq", 1, "single", False, "max", 1, 2, 1.5, .75),
        ("auto", 2, "one", True, "mean", 0, 1, .5, 2.),
        ("auto", 2, "one", True, "mean", 2, 0, .5, 2.),
        ("auto", 1, "one", True, "mean", 2, 1, 0., 2.),
        ("auto", 1, "one", True, "max", 2, 1, 2., 0))):
    R.put(lyap_total(*a), "trainer_%d" % i, str(a))


def barrier_total(nx, net, how, ns, nu, nd, ws, wu, wd):
    def f(h):
        b = loader.module("barrier")
        S = System(h, "auto", nx, True)
        phi = mknet((nx, ) + NETS[net] + (1, ), 95, .1)
        B = b.DiscreteTimeBarrier(S.s, phi)
        t = trainer(h)
        c, eps = .25, .125
        t.add_barrier(B, S.txe, c, eps)
        t.sample_loss_reduction = how
        T = lambda a, n: h.as_tensor(a) if n else torch.zeros(  # noqa
            (0, nx), dtype=torch.float64)
        x, y = samples(h, "x", S, ns, True), samples(h, "y", S, nu, True)
        z = samples(h, "z", S, nd)
        r = t.barrier_sample_loss(T(x, ns), T(y, nu), T(z, nd), ws, wu, wd)
        h.true(len(r) == 3, "three losses")
        hv = lambda a: (netfun(phi, a) - netfun(phi, S.xe))[0] + c  # noqa
        ex = [[-hv(a) for a in x], [hv(a) for a in y],
              [(1 - eps) * hv(a) - hv(S.succ(a)[0][1]) for a in z]]
        for v, e, w in zip(r, ex, (ws, wu, wd)):
            if w == 0 or not e:
                h.eq(h.elems(v).reshape(-1), [0.], "switched off")
            else:
                same(h, v, e, how, 0., scale=w)
    return f


for i, a in enumerate((
        (1, "single", "mean", 2, 1, 1, .5, 2., .75),
        (1, "one", "max", 1, 2, 1, .5, 2., .75),
        (1, "single", "4norm", 1, 1, 1, .5, 2., .75),
        (2, "one", "mean", 0, 1, 2, .5, 2., 1.5),
        (2, "one", "max", 2, 0, 1, .5, 2., 1.5),
        (2, "one", "mean", 1, 1, 1, 0., 0., 1.5),
        (2, "one", "4norm", 2, 2, 0, 1., 2., 1.5),
        (1, "one", "mean", 2, 1, 1, 1., 2., 0.))):
    R.put(barrier_total(*a), "trainer_barrier_%d" % i, str(a))


def past(kind, nx, discrete, net, trans, other, how):
    """Losses of an object which was asked other things before."""
    def mk(h):
        return system(h, kind, nx, discrete, net, trans)

    def ask(h, o, x, w, lam, eps, R, red, fm):
        m, S, L, phi = o[:4]
        c = getattr(loader.module("lyapunov").ConvergenceEps, fm)
        kw = dict(margin=.25, reduction=red)
        if w is not None:
            kw["weight"] = w
        y = .5 * x + .125
        return (L.lyapunov_positivity_loss_at_samples(
            S.txe, x, lam, eps, R=R, **kw),
            L.lyapunov_derivative_loss_at_samples_and_next_states(
                lam, eps, x, y, S.txe, c, R=R, **kw),
            L.lyapunov_value(x, S.txe, lam, R=R))

    def args(h):
        S = mk(h)[1]
        return h.as_tensor(samples(h, "x", S, 2)), h.real("eps", .01, .5)
    return history(
        mk, lambda h, o, a: ask(h, o, tt(np.full((3, nx), .25)),
                                tt([1., 2., 3.]), 1.5, .75,
                                transform(other, nx)[0], "max", "ExpLower"),
        lambda h, o, a: ask(h, o, a[0], None, .5, a[1], o[4], "mean",
                            "ExpLower"),
        lambda o: [o[3]], how, args)


for i, a in enumerate((("auto", 2, True, "one", "none", "sq", "data"),
                       ("auto", 1, False, "one", "none", "none", "copy"),
                       ("hybrid", 1, True, "one", "diag", "none", "copy"))):
    R.put(past(*a), "history_%d" % i, "samples and rate symbolic")
