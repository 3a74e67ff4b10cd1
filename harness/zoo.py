"""Primal losses to robustify, each with an independent reference formula.

`build(p, dtype)` returns (loss, transform, reduces, ref, params) where loss and
transform are what a user hands to the library, `reduces` says that the loss
already reduces its last dimension, and ref(x, y) evaluates the documented
per-point value in float64 from separate leaf tensors `params`.
"""
import torch as pt
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

from .gen import tens

LABELLED = ["mse", "mse_multi", "l1", "huber", "logistic", "xent", "mlp", "fmse", "fl1", "nobias", "fmlp"]
UNLABELLED = ["quad", "newsvendor", "lin", "fsq", "softplus", "mlpu", "ured"]
BUILTIN = ["b_logistic", "b_quadratic", "b_newsvendor"]
BUILTIN_LABELLED = ["b_logistic", "b_quadratic"]
SMOOTH_LABELLED = ["mse", "mse_multi", "logistic", "xent", "mlp", "fmse", "nobias", "fmlp"]
SMOOTH_UNLABELLED = ["quad", "lin", "fsq", "softplus", "mlpu", "ured"]


def out_dim(kind, k):
    """Label dimension of a labelled loss."""
    return k if kind in ("mse_multi", "xent", "fl1") else 1


class Quad(nn.Module):
    reduction = "none"

    def __init__(self, c):
        super().__init__()
        self.c = nn.Parameter(c)

    def forward(self, x):
        return ((x - self.c) ** 2).sum(-1, keepdim=True)


class NV(nn.Module):
    reduction = "none"

    def __init__(self, c):
        super().__init__()
        self.c = nn.Parameter(c)

    def forward(self, x):
        return (3. * self.c - 5. * pt.minimum(self.c, x)).mean(-1, keepdim=True)


class Soft(nn.Module):
    reduction = "none"

    def forward(self, s):
        # exact in the tails, unlike torch's softplus
        return pt.logaddexp(s, pt.zeros_like(s))


class Id(nn.Module):
    reduction = "none"

    def forward(self, s):
        return s


class Soft2(nn.Module):
    """Logistic loss log(1+exp(-y s)); BiDiffSoftMarginLoss without the library."""
    reduction = "none"

    def forward(self, s, y):
        return pt.logaddexp(-y * s, pt.zeros_like(s))


def squares(s, reduction):
    return (s ** 2).sum(-1)


def linear(w, b, dtype):
    m = nn.Linear(w.shape[1], w.shape[0], bias=b is not None).to(dtype)
    with pt.no_grad():
        m.weight.copy_(w)
        if b is not None:
            m.bias.copy_(b)
    return m


def build(kind, seed, d, k=1, scale=1., dtype=pt.float64, lib=False):
    """lib: use the library's own soft-margin loss where there is one."""
    w = tens(seed, 101, (out_dim(kind, k), d), scale=scale / max(1, d) ** .5, dtype=dtype)
    b = tens(seed, 102, (w.shape[0],), scale=scale, dtype=dtype)
    W, B = w.double().requires_grad_(True), b.double().requires_grad_(True)

    def lin(x):
        return x @ W.T + B

    if kind in ("mse", "mse_multi"):
        return nn.MSELoss(reduction="none"), linear(w, b, dtype), False, \
            (lambda x, y: ((lin(x) - y) ** 2).mean(-1, keepdim=True)), [W, B]
    if kind == "nobias":
        return nn.MSELoss(reduction="none"), linear(w, None, dtype), False, \
            (lambda x, y: (x @ W.T - y) ** 2), [W]
    if kind == "l1":
        return nn.L1Loss(reduction="none"), linear(w, b, dtype), False, \
            (lambda x, y: (lin(x) - y).abs()), [W, B]
    if kind == "huber":
        def hub(x, y):
            r = (lin(x) - y).abs()
            return pt.where(r <= 1., .5 * r * r, r - .5)
        return nn.HuberLoss(reduction="none"), linear(w, b, dtype), False, hub, [W, B]
    if kind == "logistic":
        if lib:
            from skwdro.base.losses_torch.logistic import BiDiffSoftMarginLoss
            loss = BiDiffSoftMarginLoss(reduction="none")
        else:
            loss = Soft2()
        return loss, linear(w, b, dtype), False, \
            (lambda x, y: pt.logaddexp(-y * lin(x), pt.zeros((), dtype=pt.float64))), [W, B]
    if kind == "xent":
        return nn.CrossEntropyLoss(reduction="none"), linear(w, b, dtype), True, \
            (lambda x, y: -(y * (lin(x) - pt.logsumexp(lin(x), -1, keepdim=True))).sum(-1, keepdim=True)), [W, B]
    if kind == "fmse":
        return F.mse_loss, linear(w, b, dtype), False, (lambda x, y: (lin(x) - y) ** 2), [W, B]
    if kind == "fl1":
        return F.l1_loss, linear(w, b, dtype), False, \
            (lambda x, y: (lin(x) - y).abs().mean(-1, keepdim=True)), [W, B]
    if kind in ("mlp", "mlpu", "fmlp"):
        h = 3
        w1 = tens(seed, 103, (h, d), scale=scale / max(1, d) ** .5, dtype=dtype)
        b1 = tens(seed, 104, (h,), scale=scale, dtype=dtype)
        w2 = tens(seed, 105, (1, h), scale=scale, dtype=dtype)
        b2 = tens(seed, 106, (1,), scale=scale, dtype=dtype)
        ps = [t.double().requires_grad_(True) for t in (w1, b1, w2, b2)]
        net = nn.Sequential(linear(w1, b1, dtype), nn.Tanh(), linear(w2, b2, dtype))

        def f(x):
            return pt.tanh(x @ ps[0].T + ps[1]) @ ps[2].T + ps[3]
        if kind == "mlp":
            return nn.MSELoss(reduction="none"), net, False, (lambda x, y: (f(x) - y) ** 2), ps
        if kind == "fmlp":
            return F.mse_loss, net, False, (lambda x, y: (f(x) - y) ** 2), ps
        return Id(), net, False, f, ps
    if kind == "quad":
        c = tens(seed, 107, (d,), scale=scale, dtype=dtype)
        C = c.double().requires_grad_(True)
        return Quad(c), None, False, (lambda x, y=None: ((x - C) ** 2).sum(-1, keepdim=True)), [C]
    if kind == "newsvendor":
        c = tens(seed, 108, (1,), scale=scale, dtype=dtype)
        C = c.double().requires_grad_(True)
        return NV(c), None, False, \
            (lambda x, y=None: (3. * C - 5. * pt.minimum(C, x)).mean(-1, keepdim=True)), [C]
    if kind == "lin":
        return Id(), linear(w, b, dtype), False, (lambda x, y=None: lin(x)), [W, B]
    if kind == "fsq":
        return (lambda s, reduction: s ** 2), linear(w, b, dtype), False, \
            (lambda x, y=None: lin(x) ** 2), [W, B]
    if kind == "ured":
        # one value per point, without a trailing dimension
        return squares, linear(w, b, dtype), True, \
            (lambda x, y=None: lin(x) ** 2), [W, B]
    if kind == "softplus":
        return Soft(), linear(w, b, dtype), False, \
            (lambda x, y=None: pt.logaddexp(lin(x), pt.zeros((), dtype=pt.float64))), [W, B]
    raise KeyError(kind)


def builtin(kind, seed, d, sampler, l2=None, scale=1., dtype=pt.float64):
    """One of the library's own losses: (loss, ref, params, regularised params)."""
    from skwdro.base.losses_torch import LogisticLoss, NewsVendorLoss, QuadraticLoss
    w = tens(seed, 101, (1, d), scale=scale / max(1, d) ** .5, dtype=dtype)
    b = tens(seed, 102, (1,), scale=scale, dtype=dtype) if seed % 3 else None
    if kind == "b_newsvendor":
        t = tens(seed, 108, (1,), scale=scale, dtype=dtype).abs()
        m = NewsVendorLoss(sampler, k=3., u=5., l2reg=l2).to(dtype)
        with pt.no_grad():
            m.theta.copy_(t)
        T = t.double().requires_grad_(True)
        return m, (lambda x, y=None: 3. * T - 5. * pt.minimum(T, x).mean(-1, keepdim=True)), [T], [T]
    m = (LogisticLoss if kind == "b_logistic" else QuadraticLoss)(sampler, d=d, l2reg=l2, fit_intercept=b is not None).to(dtype)
    with pt.no_grad():
        m.linear.weight.copy_(w)
        if b is not None:
            m.linear.bias.copy_(b)
    W = w.double().requires_grad_(True)
    B = None if b is None else b.double().requires_grad_(True)

    def lin(x):
        return x @ W.T + (0. if B is None else B)
    if kind == "b_logistic":
        def ref(x, y):
            return pt.logaddexp(-y * lin(x), pt.zeros((), dtype=pt.float64))
    else:
        def ref(x, y):
            return (lin(x) - y) ** 2
    return m, ref, [W] + ([] if B is None else [B]), [W]


def labels(kind, seed, key, shape, k, dtype, style="normal"):
    """Targets the loss accepts: +-1, class probabilities, or real values."""
    if kind == "xent":
        a = tens(seed, key, shape, "normal", 1.5, dtype)
        return pt.softmax(a, -1) if style == "normal" else F.one_hot(a.argmax(-1), shape[-1]).to(dtype)
    if kind in ("logistic", "b_logistic"):
        a = tens(seed, key, shape, "binary", 1., dtype)
        return a if style != "big" else a * 1.5
    return tens(seed, key, shape, style, 1., dtype)


def model_params(loss, transform):
    """Trainable tensors of the user's objects, in the order of `params`."""
    ps = []
    if isinstance(transform, nn.Module):
        ps += list(transform.parameters())
    if isinstance(loss, nn.Module):
        ps += list(loss.parameters())
    return ps


KIND = st.one_of(st.sampled_from(LABELLED), st.sampled_from(UNLABELLED), st.sampled_from(BUILTIN))
