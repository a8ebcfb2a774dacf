"""Network parameter vectors."""
import io

import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import netfun, pnp, F64

HARNESSES = R = Registry()
BOUNDS = ("Networks with 1-4 linear layers of widths 1-4, with and without "
          "biases, ReLU and leaky ReLU, every parameter symbolic.")
ASSUMPTIONS = ["real arithmetic for float64"]
ARCH = [((1, 1), .1, True), ((2, 3), .1, True), ((2, 3), .1, False),
        ((3, 2, 1), .1, True), ((3, 2, 1), 0., False), ((2, 4, 3, 2), 0.25, True),
        ((1, 2, 2, 1, 3), .01, False)]


def count(w, bias):
    return sum(w[i] * w[i + 1] + (w[i + 1] if bias else 0)
               for i in range(len(w) - 1))


def place(w, bias, v):
    """Weights and biases from consecutive entries."""
    k, out = 0, []
    for i in range(len(w) - 1):
        n = w[i] * w[i + 1]
        W = v[k:k + n].reshape(w[i + 1], w[i])
        k += n
        b = None
        if bias:
            b = v[k:k + w[i + 1]]
            k += w[i + 1]
        out.append((W, b))
    return out


def linears(net):
    return [l for l in net if isinstance(l, torch.nn.Linear)]


def same(h, net, parts, msg):
    ls = linears(net)
    h.true(len(ls) == len(parts), msg + ": number of layers")
    for l, (W, b) in zip(ls, parts):
        h.eq(h.elems(l.weight), W, msg + ": weight")
        h.true((l.bias is None) == (b is None), msg + ": bias present")
        if b is not None:
            h.eq(h.elems(l.bias), b, msg + ": bias")


def structure(h, net, w, slope, bias):
    ls = linears(net)
    h.true(len(net) == 2 * len(w) - 3, "layers")
    for i, l in enumerate(net):
        if i % 2 == 0:
            h.true(isinstance(l, torch.nn.Linear) and l.in_features ==
                   w[i // 2] and l.out_features == w[i // 2 + 1],
                   "linear layer")
        else:
            h.true(isinstance(l, torch.nn.LeakyReLU) and
                   l.negative_slope == slope, "activation")
    h.true(all((l.bias is not None) == bias for l in ls), "bias flag")


def build(w, slope, bias):
    def f(h):
        u = loader.module("utils")
        n = count(w, bias)
        v = h.tensor("v", n, state=True)
        V = h.elems(v).copy()
        net = u.setup_relu(w, v, slope, bias, F64)
        structure(h, net, w, slope, bias)
        same(h, net, place(w, bias, V), "setup_relu")
        h.eq(u.extract_relu_parameters(net), V, "extract after setup")
        # changing the network leaves the vector alone and vice versa
        v[0] = v[0] + 1.
        h.eq(u.extract_relu_parameters(net), V, "independent of the vector")
        st = u.extract_relu_structure(net)
        h.true(st[0] == w and st[2] == bias, "structure")
        if len(w) > 2:
            h.true(st[1] == slope, "slope")
            net2 = u.setup_relu(st[0], u.extract_relu_parameters(net),
                                st[1], st[2], F64)
            x = h.tensor("x", w[0])
            h.eq(net2(x), net(x), "rebuilt network computes the same")
            if len(w) <= 3:
                ref = netfun(net, h.elems(x))
                h.eq(net(x), ref, "network value")
        h.cover("build")

    def upd(h):
        u = loader.module("utils")
        n = count(w, bias)
        net = u.setup_relu(w, None, slope, bias, F64)
        structure(h, net, w, slope, bias)
        v = h.tensor("v", n)
        V = h.elems(v).copy()
        u.update_relu_params(net, v)
        same(h, net, place(w, bias, V), "update")
        h.eq(u.extract_relu_parameters(net), V, "extract after update")
        v2 = h.tensor("w", n)
        V2 = h.elems(v2).copy()
        u.update_relu_params(net, v2)
        h.eq(u.extract_relu_parameters(net), V2, "second update")
        h.eq(h.elems(v), V, "first vector unchanged")
        h.cover("update")

    def grad(h):
        u = loader.module("utils")
        n = count(w, bias)
        net = u.setup_relu(w, torch.zeros(n, dtype=F64), slope, bias, F64)
        h.eq(u.extract_relu_parameters_grad(net), np.zeros(n),
             "no gradient yet")
        g = h.tensor("g", n)
        G = h.elems(g).copy()
        skip = h.choice("skip", 3)
        want = []
        for i, (l, (W, b)) in enumerate(zip(linears(net), place(w, bias, G))):
            if skip == 1 and i == 0:
                W = W * 0
            else:
                l.weight.grad = h.as_tensor(W)
            want.append(W.reshape(-1))
            if b is not None:
                if skip == 2 and i == len(w) - 2:
                    b = b * 0
                else:
                    l.bias.grad = h.as_tensor(b)
                want.append(b)
        h.eq(u.extract_relu_parameters_grad(net), np.concatenate(want),
             "gradient order")
        u.network_zero_grad(net)
        h.eq(u.extract_relu_parameters_grad(net), np.zeros(n), "zeroed")
        h.eq(u.extract_relu_parameters(net), np.zeros(n), "weights kept")
        h.cover("grad")
    return f, upd, grad


for w, s, b in ARCH:
    nm = "x".join(map(str, w)) + ("" if b else "_nobias")
    f, g, k = build(w, s, b)
    R.put(f, "setup_" + nm, "parameters, input symbolic")
    R.put(g, "update_" + nm, "two parameter vectors symbolic")
    R.put(k, "gradient_" + nm, "gradient symbolic, absent parts")


def relu_kind(h):
    """Networks made elsewhere: plain ReLU, last layer activated."""
    u = loader.module("utils")
    last = h.choice("last", 2)
    ls = [torch.nn.Linear(2, 3, dtype=F64), torch.nn.ReLU(),
          torch.nn.Linear(3, 2, dtype=F64)] + ([torch.nn.ReLU()] if last
                                                else [])
    net = torch.nn.Sequential(*ls)
    v = h.tensor("v", count((2, 3, 2), True))
    V = h.elems(v).copy()
    u.update_relu_params(net, v)
    same(h, net, place((2, 3, 2), True, V), "update")
    h.eq(u.extract_relu_parameters(net), V, "extract")
    w, s, b = u.extract_relu_structure(net)
    h.true(w == (2, 3, 2) and s == 0. and b, "structure")
    h.cover("relu")


R.put(relu_kind, "plain_relu", "parameters symbolic")


def saved(which):
    """What is saved rebuilds the model."""
    def f(h):
        u = loader.module("utils")
        ro = loader.module("r_options")
        w, s, b = ((3, 2, 1), .25, True) if which != "forward" else (
            (2, 3, 2), .1, False)
        n = count(w, b)
        net = u.setup_relu(w, torch.zeros(n, dtype=F64), s, b, F64)
        u.update_relu_params(net, h.tensor("v", n))
        got = {}
        old = torch.save

        def save(o, p, *a, **k):
            got[p] = o
        torch.save = save
        try:
            if which == "forward":
                q, ue = h.tensor("q", 2), h.tensor("u", 1)
                u.save_second_order_forward_model(net, q, ue, .01, "f")
                extra = {"q_equilibrium": q, "u_equilibrium": ue}
                h.true(got["f"]["dt"] == .01, "dt")
            elif which == "controller":
                t = [h.tensor(k, d) for k, d in (("xl", 3), ("xu", 3),
                                                 ("ul", 1), ("uu", 1))]
                u.save_controller_model(net, *t, "f")
                extra = dict(zip(("x_lo", "x_up", "u_lo", "u_up"), t))
            else:
                if which == "lyapunov":
                    r = ro.SearchRwithSPDOptions((3, 3), .1)
                    val = h.array("R", 6)
                    r.set_variable_value_directly(val)
                else:
                    r = ro.FixedROptions(h.tensor("R", (3, 3)))
                lam, e1, e2 = (h.real(k, 0, 1) for k in ("l", "e1", "e2"))
                u.save_lyapunov_model(net, lam, e1, e2, "type", r, "f")
                extra = {"R": r.R(), "V_lambda": lam,
                         "lyapunov_positivity_epsilon": e1,
                         "lyapunov_derivative_epsilon": e2}
                h.true(got["f"]["eps_type"] == "type", "eps type")
                h.true(got["f"]["fixed_R"] == (which != "lyapunov"),
                       "fixed flag")
                if which == "lyapunov":
                    r2 = ro.SearchRwithSPDOptions(got["f"]["R_size"],
                                                  got["f"]["R_epsilon"])
                    v0 = got["f"]["R_variables"][0].detach()
                    r2.set_variable_value_directly(
                        v0.numpy() if isinstance(v0, torch.Tensor) else v0)
                    h.eq(r2.R(), r.R(), "transform rebuilt")
        finally:
            torch.save = old
        d = got["f"]
        for k, v in extra.items():
            h.eq(d[k], v, k)
        net2 = u.setup_relu(d["linear_layer_width"], None,
                            d["negative_slope"], d["bias"], F64)
        for l, k in zip([x for x in net2 if isinstance(x, torch.nn.Linear)],
                        range(0, 99, 2)):
            l.weight.data = d["state_dict"]["%d.weight" % k].detach()
            if d["bias"]:
                l.bias.data = d["state_dict"]["%d.bias" % k].detach()
        x = h.tensor("x", w[0])
        h.eq(net2(x), net(x), "rebuilt network computes the same")
        h.cover("saved")
    return f


for k in ("forward", "controller", "lyapunov", "lyapunov_fixed"):
    R.put(saved(k), "saved_" + k, "parameters and options symbolic")
