"""L01: formulas of the built-in primal losses."""
import numpy as np
import torch as pt
import torch.nn.functional as F
from hypothesis import strategies as st

from skwdro.base.losses_torch import (
    LogisticLoss, NewsVendorLoss, QuadraticLoss, SimpleWeber)
from skwdro.base.losses_torch.logistic import BiDiffSoftMarginLoss
from skwdro.base.losses_torch.portfolio import SimplePortfolio

from harness.core import Case, check, close, has_shape, to_np
from harness.gen import DTYPES, SEED, STYLES, dims, fixed, logf, tens
from harness.laws import log_density

RULE = ("Generated parameters, data of several styles and magnitudes (margins up to 1e6), batch layouts and "
        "regularisations; non-trivial when the loss is not constant over the points or there is a single point.")

EPS = {"f32": 3e-7, "f64": 2e-15}


def softplus64(t):
    return pt.logaddexp(t, pt.zeros((), dtype=pt.float64))


def reg(q, ps):
    r = q["l2"]
    return .5 * float(pt.tensor(r)) * float(sum((p.double() ** 2).sum() for p in ps)) if r and r > 0 else 0.


def set_params(loss, values):
    """Give the loss's parameters their values, matched by shape."""
    ps = list(loss.parameters())
    check(sorted(p.dim() for p in ps) == sorted(v.dim() for v in values),
          f"parameters of shapes {[tuple(p.shape) for p in ps]}, expected {[tuple(v.shape) for v in values]}")
    with pt.no_grad():
        for v in values:
            [p] = [p for p in ps if p.dim() == v.dim()]
            check(p.shape == v.shape, f"parameter of shape {tuple(p.shape)}, expected {tuple(v.shape)}")
            p.copy_(v)


def linear_setup(q, loss, dt):
    d = q["d"]
    loss.to(dt)
    w = tens(q["seed"], 1, (1, d), q["wstyle"], q["wscale"], dt)
    b = tens(q["seed"], 2, (1,), "normal", q["wscale"], dt)
    set_params(loss, [w, b] if q["icpt"] else [w])
    return w, (b if q["icpt"] else None)


def data(q, dt, cols):
    lead = tuple(q["lead"])
    return tens(q["seed"], 10, lead + (cols,), q["xstyle"], q["xscale"], dt), lead


def reported(q, loss, w, b):
    close(pt.as_tensor(loss.theta).reshape(-1), w.reshape(-1), "reported coefficients", rtol=0., atol=0.)
    if b is None:
        ic = loss.intercept
        check(ic is None or not np.any(to_np(ic)), "an intercept is reported although there is none")
    else:
        close(pt.as_tensor(loss.intercept).reshape(-1), b.reshape(-1), "reported intercept", rtol=0., atol=0.)


def varied(v):
    return v.numel() == 1 or bool((v.max() - v.min()) > 0)


def linear(q, ctx):
    dt = DTYPES[q["dtype"]]
    e = EPS[q["dtype"]]
    quad = q["kind"] == "quadratic"
    cls = QuadraticLoss if quad else LogisticLoss
    loss = cls(None, d=q["d"], l2reg=q["l2"], fit_intercept=q["icpt"])
    w, b = linear_setup(q, loss, dt)
    x, lead = data(q, dt, q["d"])
    y = tens(q["seed"], 11, lead + (1,), q["ystyle"] if quad else "binary", 1., dt)
    s = x.double() @ w.double().T + (0. if b is None else b.double())
    mag = (x.double().abs() @ w.double().abs().T + (0. if b is None else b.double().abs()))
    R = reg(q, [w])
    if quad:
        want = (s - y.double()) ** 2
        atol = 8 * e * (mag + y.double().abs()) * q["d"] * ((s - y.double()).abs() + e * q["d"] * (mag + 1))
    else:
        want = softplus64(-y.double() * s)
        # the usual formulas of log(1 + exp) are switched at 20, exp(-20) apart
        atol = 4 * e * (mag * q["d"] + 1) + 3e-9
    want = want + R
    atol = float((atol + 8 * e * q["d"] * abs(R)).max()) + 1e-30
    for f in (loss, loss.value):
        got = f(x, y)
        has_shape(got, lead + (1,), f"{q['kind']} loss")
        close(got, want, f"{q['kind']} loss", rtol=8 * e, atol=atol)
    if not quad:
        t = 2e-6 if q["dtype"] == "f32" else 1e-12
        close(loss.predict(x), pt.tanh(s), "logistic loss: soft prediction", rtol=0., atol=t + float((4 * e * q["d"] * mag).max()))
    else:
        close(loss.regression(x), s, "quadratic loss: prediction", rtol=0., atol=float((4 * e * q["d"] * mag).max()) + 1e-30)
    check(bool(loss.has_labels), "a labelled loss says it has no labels")
    reported(q, loss, w, b)
    ctx.tag(q["kind"]); ctx.tag("reg" if R else "noreg")
    return varied(want)


def unlabelled(q, ctx):
    dt = DTYPES[q["dtype"]]
    e = EPS[q["dtype"]]
    kind = q["kind"]
    if kind == "newsvendor":
        loss = NewsVendorLoss(None, k=q["k"], u=q["u"], l2reg=q["l2"]).to(dt)
        th = tens(q["seed"], 1, (1,), "normal", q["wscale"], dt)
        set_params(loss, [th])
        x, lead = data(q, dt, q["d"])
        T = float(th)
        want = q["k"] * T - q["u"] * pt.minimum(th.double(), x.double()).mean(-1, keepdim=True) + reg(q, [th])
        atol = 16 * e * (abs(q["k"] * T) + q["u"] * (abs(T) + float(x.abs().max())) + abs(reg(q, [th])))
        for f in (lambda: loss(x), lambda: loss.value(x), lambda: loss.value(x, None)):
            got = f()
            has_shape(got, lead + (1,), "newsvendor loss")
            close(got, want, "newsvendor loss", rtol=8 * e, atol=atol)
        old = loss.value_old(th, x)
        close(old, q["k"] * T - q["u"] * pt.minimum(th.double(), x.double()), "newsvendor cost", rtol=8 * e, atol=atol)
        close(pt.as_tensor(loss.theta).reshape(-1), th, "reported decision", rtol=0., atol=0.)
        check(not loss.has_labels, "an unlabelled loss says it has labels")
        ic = loss.intercept
        check(ic is None or not np.any(to_np(ic)), "an intercept is reported although there is none")
    elif kind == "portfolio":
        loss = SimplePortfolio(q["d"], risk_aversion=q["eta"], risk_level=q["alpha"]).to(dt)
        a = tens(q["seed"], 1, (1, q["d"]), "normal", q["wscale"], dt)
        tau = tens(q["seed"], 2, (), "normal", q["wscale"], dt)
        wts = pt.softmax(a.double(), -1)
        set_params(loss, [a, tau])
        x, lead = data(q, dt, q["d"])
        r = x.double() @ wts.T
        eta, al = float(pt.tensor(q["eta"])), float(pt.tensor(q["alpha"]))
        want = -r + eta * (tau.double() + F.relu(-r - tau.double()) / al)
        mag = (float(x.abs().max()) * 8 + abs(float(tau))) * (1 + eta + eta / al)
        close(loss.assets.weight.sum(), pt.tensor(1.), "portfolio weights", rtol=1e-5, atol=0.)
        got = loss(x)
        has_shape(got, lead + (1,), "portfolio loss")
        close(got, want, "portfolio loss", rtol=8 * e, atol=32 * e * q["d"] * mag + 1e-30)
    else:
        loss = SimpleWeber(q["d"]).to(dt)
        pos = tens(q["seed"], 1, (q["d"],), q["wstyle"], q["wscale"], dt)
        set_params(loss, [pos])
        x, lead = data(q, dt, q["d"])
        if len(lead) == 0:
            lead = (1,)
            x = x.unsqueeze(0)
        y = tens(q["seed"], 11, lead + (1,), "normal", 1., dt)
        want = y.double() * (((x.double() - pos.double()) ** 2).sum(-1, keepdim=True)) ** .5
        got = loss(x, y)
        has_shape(got, lead + (1,), "Weber loss")
        mag = (float(x.abs().max()) + float(pos.abs().max())) * float(y.abs().max())
        close(got, want, "Weber loss", rtol=8 * e, atol=16 * e * q["d"] * mag + 1e-30)
    ctx.tag(kind)
    return varied(want)


def softmargin(q, ctx):
    dt = DTYPES[q["dtype"]]
    e = EPS[q["dtype"]]
    s, lead = data(q, dt, q["d"])
    y = tens(q["seed"], 11, tuple(s.shape), "binary", 1., dt)
    want = softplus64(-y.double() * s.double())
    L = BiDiffSoftMarginLoss(reduction="none")
    check(L.reduction == "none", "soft-margin reduction")
    got = L(s, y if q["icpt"] else y.reshape(-1))
    has_shape(got, s.shape, "soft-margin loss")
    close(got, want, "soft-margin loss", rtol=16 * e + 1.5e-10, atol=1e-30 + (1e-37 if q["dtype"] == "f32" else 0.))
    check(bool((got >= 0).all()), "negative soft-margin loss")
    # twice differentiable: gradients at both arguments
    t = s.clone().requires_grad_(True)
    u = y.clone().requires_grad_(True)
    g, h = pt.autograd.grad(L(t, u).sum(), [t, u])
    sg = pt.sigmoid(-y.double() * s.double())
    close(g, -y.double() * sg, "soft-margin gradient in the prediction", rtol=1e-4 if q["dtype"] == "f32" else 3e-9, atol=1e-36)
    close(h, -s.double() * sg, "soft-margin gradient in the target", rtol=1e-4 if q["dtype"] == "f32" else 3e-9, atol=1e-30)
    return varied(want)


def default_sampler(q, ctx):
    """The sampler a loss proposes is centred on the data with the given width."""
    dt = pt.float32
    m, n, d = q["m"], 3, q["d"]
    x = tens(q["seed"], 1, (m, d), dtype=dt)
    y = tens(q["seed"], 2, (m, 1), dtype=dt)
    z = x + tens(q["seed"], 3, (n, m, d), scale=q["sigma"], dtype=dt)
    w = y + tens(q["seed"], 4, (n, m, 1), scale=q["sigma"], dtype=dt)
    cls = {"logistic": LogisticLoss, "quadratic": QuadraticLoss, "newsvendor": NewsVendorLoss}[q["kind"]]
    lab = q["kind"] != "newsvendor"
    pt.manual_seed(11)
    s = cls.default_sampler(x, y if lab else None, q["sigma"], 3)
    first = s.sample(4)
    pt.manual_seed(12)
    again = cls.default_sampler(x, y if lab else None, q["sigma"], 3).sample(4)
    for u, v in zip(first, again):
        if v is not None:
            close(u, v, f"draws of the default {q['kind']} sampler under the same seed", rtol=0., atol=0.)
    law = dict(kind="normal", tril=q["sigma"] * np.eye(d))
    want = log_density(law, x, z)
    if lab:
        want = want + log_density(dict(kind="normal", tril=q["sigma"] * np.eye(1)), y, w)
    close(s.log_prob(z, w if lab else None), want, f"density of the default {q['kind']} sampler", rtol=1e-4, atol=1e-3)
    # a loss hands out its sampler's draws
    loss = cls(s, d=d) if lab else cls(s)
    pt.manual_seed(1)
    a = loss.sample_pi0(5)
    pt.manual_seed(1)
    b = s.sample(5)
    close(a[0], b[0], "samples handed out by the loss", rtol=0., atol=0.)
    check(loss.sampler is s, "the loss lost its sampler")
    return True


LEAD = st.sampled_from([[4], [1], [3, 4], [1, 5], [2, 1], [2, 3, 2], [], [90], [20, 9]])
BASE = dict(seed=SEED, d=dims(1, 5, 40), lead=LEAD, dtype=st.sampled_from(["f64", "f32"]),
            xstyle=st.sampled_from(STYLES), xscale=st.sampled_from([1., 1., 1e-3, 100., 1e5]),
            wstyle=st.sampled_from(["normal", "sparse", "int"]), wscale=st.sampled_from([1., 1., .01, 10., 300., 0.]),
            l2=st.sampled_from([None, None, 0., .5, 3., 1e-3, -1.]), icpt=st.booleans())
CASES = [
    Case("linear", fixed(kind=st.sampled_from(["logistic", "quadratic"]), ystyle=st.sampled_from(STYLES), **BASE),
         linear, 1600),
    Case("unlabelled", fixed(kind=st.sampled_from(["newsvendor", "portfolio", "weber"]),
                             k=st.sampled_from([5., 1., 0.5, 12.]), u=st.sampled_from([7., 1., 0.25, 100.]),
                             eta=st.sampled_from([0., .5, 1., 10., .3, 25., 1e3]), alpha=st.sampled_from([.95, .5, .05, 1., .3]),
                             **BASE), unlabelled, 1600),
    Case("softmargin", fixed(**BASE), softmargin, 800),
    Case("default_sampler", fixed(kind=st.sampled_from(["logistic", "quadratic", "newsvendor"]), seed=SEED,
                                  m=dims(1, 4), d=dims(1, 4), sigma=st.sampled_from([.25, 1., 2.])),
         default_sampler, 200, 1000),
]
