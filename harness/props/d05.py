"""D05: order, shift and invariance laws of the robust loss on fixed samples."""
import math

import torch as pt
import torch.nn as nn
from hypothesis import strategies as st

from skwdro.base.losses_torch import WrappedPrimalLoss

from harness import zoo
from harness.core import Case, check, close, to_np
from harness.dual import HIST, DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params
from harness.gen import SEED, logf, rng

RULE = ("Generated robust losses on fixed samples, compared with transformed versions of themselves; "
        "non-trivial when the samples give different terms (at least two samples, non-constant L - lambda*c).")


def call(P, xi=None, y=None, zeta=None, zl=None):
    # the resampled form draws its own samples: give them to the dual directly
    f = P.robust.compute_dual if isinstance(P.robust, DualPostSampledLoss) else P.robust
    return f(P.xi if xi is None else xi, P.y if y is None else y,
             P.zeta if zeta is None else zeta, P.zl if zl is None else zl)


def val(P, **kw):
    return to_np(call(P, **kw), "robust loss")


def spread(P):
    L, c = P.terms()
    t = L - P.lam64() * c
    return q_n(P) > 1 and bool((t.max(0).values - t.min(0).values).max() > 1e-9)


def q_n(P):
    return P.zeta.shape[0]


def atol(P, k=2.):
    return k * P.tol()["atol"]


def make(q):
    return Problem(q, DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss)


def bounds(q, ctx):
    P = make(q)
    L, c = P.terms()
    t = L - P.lam64() * c
    head = P.lam64() * float(P.robust.rho.detach().double()) ** q["power"]
    lo, hi = head + P.reduce(t.mean(0)), head + P.reduce(t.max(0).values)
    v, a = val(P), atol(P)
    check(bool((v >= lo.detach().numpy() - a).all()), f"below the average over samples: {v} < {lo}")
    check(bool((v <= hi.detach().numpy() + a).all()), f"above the worst sample: {v} > {hi}")
    return spread(P)


def order(q, ctx):
    """Radius, temperature and multiplier orders."""
    P = make(q)
    v0, a0 = val(P), atol(P)
    # radius
    P.set_rho(q["rho"] * q["f"])
    v1, a1 = val(P), atol(P)
    check(bool((v1 >= v0 - a0 - a1).all()) if q["f"] >= 1 else bool((v1 <= v0 + a0 + a1).all()),
          f"not non-decreasing in the radius: {v0} -> {v1} for factor {q['f']}")
    P.set_rho(q["rho"])
    # temperature
    P.set_eps(q["eps"] * q["f"])
    v1, a1 = val(P), atol(P)
    check(bool((v1 <= v0 + a0 + a1).all()) if q["f"] >= 1 else bool((v1 >= v0 - a0 - a1).all()),
          f"not non-increasing in the temperature: {v0} -> {v1} for factor {q['f']}")
    P.set_eps(q["eps"])
    # convexity in the multiplier
    l0, l1, w = q["lam"], q["lam2"], q["w"]
    vs, as_ = [], []
    for l in (l0, l1, w * l0 + (1 - w) * l1):
        P.set_lam(l)
        vs.append(val(P)); as_.append(atol(P))
    a = sum(as_) + (abs(l0) + abs(l1)) * (1e-6 if P.dt == pt.float32 else 1e-15) * \
        float(P.C().max() + q["rho"] ** q["power"]) * q["m"]
    check(bool((vs[2] <= w * vs[0] + (1 - w) * vs[1] + a).all()), f"not convex in the multiplier: {vs}")
    return spread(P)


class Shifted(nn.Module):
    reduction = "none"

    def __init__(self, base, c):
        super().__init__()
        self.base, self.c = base, c

    def forward(self, *a):
        return self.base(*a) + self.c


def shift(q, ctx):
    if q["kind"] in zoo.BUILTIN:
        # only user losses can be shifted from outside
        q = dict(q, kind=q["kind"].replace("b_", "").replace("quadratic", "mse"))
    P = make(q)
    v0, a0 = val(P), atol(P)
    c = q["shift"]
    base = P.loss_
    sh = Shifted(base, c) if isinstance(base, nn.Module) else (lambda *a, **k: base(*a, **k) + c)
    P.robust.primal_loss = WrappedPrimalLoss(sh, P.transform_, P.sampler, P.labelled,
                                             reduce_spatial_dims=P.primal.reduce_spatial_dims, l2reg=P.l2)
    v1 = val(P)
    k = q["m"] if q["reduction"] == "sum" else 1
    close(v1, v0 + k * c, "shifted primal loss", rtol=0.,
          atol=2 * a0 + abs(c) * k * (1e-5 if P.dt == pt.float32 else 1e-12))
    return spread(P)


def invariance(q, ctx):
    P = make(q)
    v0, a = val(P), atol(P)
    r = rng(q["seed"], 77)
    n, m = q["n"], q["m"]
    s = pt.as_tensor(r.permutation(n))
    close(val(P, zeta=P.zeta[s], zl=None if P.zl is None else P.zl[s]), v0, "order of the samples", rtol=0., atol=a)
    rep = q["rep"]
    close(val(P, zeta=P.zeta.repeat(rep, 1, 1), zl=None if P.zl is None else P.zl.repeat(rep, 1, 1)), v0,
          "duplicated samples", rtol=0., atol=a)
    i = pt.as_tensor(r.permutation(m))
    vp = val(P, xi=P.xi[i], y=None if P.y is None else P.y[i], zeta=P.zeta[:, i],
             zl=None if P.zl is None else P.zl[:, i])
    close(vp, v0[i.numpy()] if q["reduction"] == "none" else v0, "order of the data points", rtol=0., atol=a)
    # samples permuted independently for each data point
    z2 = pt.stack([P.zeta[pt.as_tensor(rng(q["seed"], 78, j).permutation(n)), j] for j in range(m)], 1)
    zl2 = None if P.zl is None else pt.stack(
        [P.zl[pt.as_tensor(rng(q["seed"], 78, j).permutation(n)), j] for j in range(m)], 1)
    close(val(P, zeta=z2, zl=zl2), v0, "order of the samples of each point", rtol=0., atol=a)
    return spread(P) and (n > 1 or m > 1)


def reductions(q, ctx):
    vs, ats = {}, {}
    for r in ("none", "mean", "sum", None):
        P = make(dict(q, reduction=r))
        vs[r], ats[r] = val(P), atol(P)
    lamrho = P.lam64() * float(P.robust.rho.detach().double()) ** q["power"]
    a = sum(ats.values())
    close(vs["mean"], vs["none"].mean(), "mean against per-point values", rtol=0., atol=a)
    close(vs[None], vs["mean"], "default reduction is the mean", rtol=0., atol=a)
    close(vs["sum"], (vs["none"] - lamrho).sum() + lamrho, "sum against per-point values", rtol=0., atol=a)
    # a point alone has the value it has in the batch
    P = make(dict(q, reduction="none"))
    j = q["seed"] % q["m"]
    one = val(P, xi=P.xi[j:j + 1], y=None if P.y is None else P.y[j:j + 1], zeta=P.zeta[:, j:j + 1],
              zl=None if P.zl is None else P.zl[:, j:j + 1])
    close(one, vs["none"][j:j + 1], "a point alone", rtol=0., atol=a)
    return q["m"] > 1


def finite(q, ctx):
    """Extreme temperatures and multipliers: finite and equal to the limit."""
    P = make(q)
    L, c = P.terms()
    lam, eps = P.lam64(), float(P.robust.epsilon.detach().double())
    lim = 1e36 if P.dt == pt.float32 else 1e305
    big = float(L.abs().max()) + lam * float(c.max())
    if not (big < lim / 10 and big / eps < lim and eps > 0):
        return False
    v = call(P)
    check(bool(v.isfinite().all()), f"robust loss not finite: {v}")
    close(v, P.ref_dual(), "robust loss at extreme scales", **P.tol())
    v.sum().backward()
    for t in P.primal.parameters():
        check(t.grad is not None and bool(t.grad.isfinite().all()), "gradient not finite")
    check(P.robust.lam.grad is not None and bool(P.robust.lam.grad.isfinite().all()), "gradient of the multiplier not finite")
    return spread(P)


FORM = st.sampled_from(["pre", "post"])
CASES = [
    Case("bounds", dual_params(hist=HIST, form=FORM), bounds, 1200),
    Case("order", dual_params(hist=HIST, form=FORM, f=logf(1e-2, 1e2), lam2=logf(1e-4, 1e3),
                              w=st.sampled_from([.5, .25, .9])), order, 900),
    Case("shift", dual_params(hist=HIST, form=FORM, shift=st.one_of(st.sampled_from([1., -3., 1e3, -1e4]),
                                                         logf(1e-2, 1e2))), shift, 900),
    Case("invariance", dual_params(hist=HIST, form=FORM, rep=st.sampled_from([2, 3])), invariance, 900),
    Case("reductions", dual_params(hist=HIST, form=FORM), reductions, 700),
    Case("finite", dual_params(hist=HIST, form=FORM, eps=st.one_of(logf(1e-30, 1e-4), logf(1e-7, 1.)),
                               lam=st.one_of(logf(1e-6, 1e8), st.just(0.)), rho=logf(1e-6, 1e3)), finite, 900),
]
