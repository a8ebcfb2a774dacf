"""Encoders and decoders."""
import numpy as np
import torch
from symx.driver import Registry
from symx import loader
from symx.lib import rnd, F64

HARNESSES = R = Registry()
BOUNDS = ("Hidden widths and channel counts above 4 are shrunk to 2 or 3 when "
          "the model is built; a few pixels (all pixels for the linear "
          "models) and all latent entries are symbolic, the remaining pixels "
          "and the weights are fixed rationals.")
ASSUMPTIONS = ["real arithmetic for float64",
               "the logistic function is any function with values in (0,1)"]


class Shrunk:
    """Builds models with small hidden layers."""
    def __init__(self, big):
        self.big = big

    def s(self, n):
        return self.big.get(n, n) if isinstance(n, int) else n

    def __enter__(self):
        nn = torch.nn
        self.save = (nn.Linear, nn.Conv2d, nn.ConvTranspose2d)
        s = self.s
        L, C, T = self.save
        nn.Linear = lambda i, o, *a, **k: L(s(i), s(o), *a, **k)
        nn.Conv2d = lambda i, o, *a, **k: C(s(i), s(o), *a, **k)
        nn.ConvTranspose2d = lambda i, o, *a, **k: T(s(i), s(o), *a, **k)

    def __exit__(self, *e):
        nn = torch.nn
        nn.Linear, nn.Conv2d, nn.ConvTranspose2d = self.save


def build(cls, z, w, hgt, gray):
    e = loader.module("encoders")
    torch.manual_seed(0)
    with Shrunk({500: 3, 200: 3, 1000: 3, 16: 2, 32: 2, 10: 3}):
        m = getattr(e, cls)(z, w, hgt, gray)
    m = m.double()
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            p.data = torch.tensor(rnd(k + 1, tuple(p.shape), -1, 1, 4),
                                  dtype=F64)
    m.eval()
    last = {}

    def hook(mod, i, o):
        last["o"] = o
        last["m"] = mod
    for c in m.modules():
        if isinstance(c, (torch.nn.Linear, torch.nn.Conv2d,
                          torch.nn.ConvTranspose2d)):
            c.register_forward_hook(hook)
    return m, last


def image(h, n, c, w, hgt, npix):
    a = rnd(5, (n, c, w, hgt), 0, 1, 4).astype(object)
    r = np.random.RandomState(3)
    for b in range(n):
        for k in range(min(npix, c * w * hgt)):
            if npix >= c * w * hgt:
                i = np.unravel_index(k, (c, w, hgt))
            else:
                i = (r.randint(c), r.randint(w), r.randint(hgt))
            a[(b, ) + tuple(i)] = h.real("x%d_%d" % (b, k), 0, 1)
    return h.as_tensor(a)


def enc(cls, z, w, hgt, gray, npix, batch=2):
    def f(h):
        m, last = build(cls, z, w, hgt, gray)
        c = 2 if gray else 6
        x = image(h, batch, c, w, hgt, npix)
        mu, lv = m(x)
        h.true(tuple(mu.shape) == (batch, z), "shape of the mean")
        h.true(tuple(lv.shape) == (batch, z), "shape of the log variance")
        o = last["o"]
        h.true(tuple(o.shape) == (batch, 2 * z), "last layer width")
        h.eq(mu, o[:, :z], "mean is the first half")
        h.eq(lv, o[:, z:], "log variance is the second half")
        for b in range(batch):
            m1, l1 = m(x[b:b + 1])
            h.eq(m1[0], mu[b], "mean of image %d alone" % b)
            h.eq(l1[0], lv[b], "log variance of image %d alone" % b)
        h.cover("encoded")
    return f


def dec(cls, z, w, hgt, gray, batch=2):
    def f(h):
        m, last = build(cls, z, w, hgt, gray)
        c = 2 if gray else 6
        x = h.tensor("z", (batch, z), -1, 1)
        y = m(x)
        h.true(tuple(y.shape) == (batch, c, w, hgt), "image shape")
        h.ge(y, 0., "pixels at least zero")
        h.le(y, 1., "pixels at most one")
        o = last["o"]
        want = torch.sigmoid(o).reshape(batch, c, w, hgt)
        h.eq(y, want, "pixels in channel and row order")
        for b in range(batch):
            h.eq(m(x[b:b + 1])[0], y[b], "image %d alone" % b)
        h.cover("decoded")
    return f


for gray in (True, False):
    g = "gray" if gray else "rgb"
    R.put(enc("LinearEncoder1", 2, 3, 2, gray, 99), "linear_enc_" + g,
          "3x2 images, latent 2, batch 2, every pixel symbolic")
    R.put(dec("LinearDecoder1", 2, 3, 2, gray), "linear_dec_" + g,
          "3x2 images, latent 2, batch 2")
    R.put(enc("CNNEncoder1", 2, 8, 4, gray, 2), "cnn1_enc_" + g,
          "8x4 images, latent 2, batch 2, 2 symbolic pixels each")
    R.put(dec("CNNDecoder1", 2, 8, 4, gray), "cnn1_dec_" + g,
          "8x4 images, latent 2, batch 2")
    R.put(enc("CNNEncoder2", 2, 41, 49, gray, 1, batch=2), "cnn2_enc_" + g,
          "41x49 images, latent 2, batch 2, 1 symbolic pixel each")
R.put(enc("LinearEncoder1", 3, 2, 3, True, 99, batch=1), "linear_enc_z3",
      "2x3 images, latent 3")
R.put(enc("CNNEncoder1", 3, 4, 8, True, 2, batch=1), "cnn1_enc_z3",
      "4x8 images, latent 3")
R.put(dec("CNNDecoder1", 1, 4, 12, True, batch=1), "cnn1_dec_z1",
      "4x12 images, latent 1")
R.put(dec("CNNDecoder2", 1, 32, 36, True, batch=1), "cnn2_dec",
      "32x36 images, latent 1")
R.put(dec("CNNDecoder2", 2, 36, 32, False, batch=2), "cnn2_dec_rgb",
      "36x32 images, latent 2", tier="thorough")
