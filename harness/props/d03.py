"""D03: importance sampling against the shifted, reweighted dual."""
import math

import numpy as np
import torch as pt
import torch.nn as nn
from hypothesis import strategies as st

from skwdro.base.losses_torch import WrappedPrimalLoss
from skwdro.base.samplers.torch.base_samplers import BaseSampler
from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler

from harness import zoo
from harness.core import Case, Violation, check, close, has_shape
from harness.dual import INF, HIST, DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params, make_cost, ref_cost
from harness.gen import SEED, dims, fixed, logf, tens

RULE = ("Generated robust losses with importance sampling, smooth models, squared Euclidean costs and Gaussian "
        "samplers (the library's and a user-defined one); non-trivial when the displacement and the "
        "density ratio change the value by more than the comparison tolerance.")
ASSUMPTIONS = ["torch elementary operations and automatic differentiation are trusted"]
KINDS = zoo.SMOOTH_LABELLED + zoo.SMOOTH_UNLABELLED + zoo.BUILTIN_LABELLED


class GaussSampler(BaseSampler):
    """User-side Gaussian sampler with its own densities."""

    def __init__(self, P, sx, sy):
        super().__init__(None)
        self.P, self.sx, self.sy = P, sx, sy
        self.mu, self.mul = P.xi, P.y

    @property
    def produces_labels(self):
        return self.P.labelled

    def sample(self, n_samples):
        return self.P.zeta, self.P.zl

    def reset_mean(self, xi, xi_labels):
        self.mu, self.mul = xi, xi_labels

    def _lp(self, c, cl, z, zl):
        v = -((z - c) ** 2).sum(-1, keepdim=True) / (2 * self.sx ** 2)
        if zl is not None:
            v = v - ((zl - cl) ** 2).sum(-1, keepdim=True) / (2 * self.sy ** 2)
        return v

    def log_prob(self, zeta, zeta_labels):
        return self._lp(self.mu, self.mul, zeta, zeta_labels)

    def log_prob_recentered(self, xi, xi_labels, zeta, zeta_labels):
        return self._lp(xi, xi_labels, zeta, zeta_labels)


def make_sampler(q, P):
    if q["sampler"] == "user":
        return GaussSampler(P, q["sx"], q["sy"])
    if P.labelled:
        return LabeledCostSampler(P.cost, P.xi, P.y, q["sx"], seed=None)
    return NoLabelsCostSampler(P.cost, P.xi, q["sx"], seed=None)


def grads(P):
    """Gradients of the primal loss at the data points, float64."""
    x = P.D(P.xi).clone().requires_grad_(True)
    if P.labelled:
        y = P.D(P.y).clone().requires_grad_(True)
        g = pt.autograd.grad(P.L(x, y).sum(), [x, y], allow_unused=True)
        return g[0], (g[1] if g[1] is not None else pt.zeros_like(y))
    g = pt.autograd.grad(P.L(x, None).sum(), [x], allow_unused=True)
    return (g[0] if g[0] is not None else pt.zeros_like(x)), None


def label_scale(q, P):
    """Scale of the labels' sampling law (None: labels are not moved)."""
    if not P.labelled or P.cid == "NC":
        return None
    if q["sampler"] == "user":
        return q["sy"]
    return None if q["kappa"] == INF else q["sx"]


def shifted_dual(q, P, sh, shl):
    """Dual value on shifted samples with density ratio; also error scale."""
    lam, eps = P.lam64(), float(P.robust.epsilon.detach().double())
    rho = float(P.robust.rho.detach().double())
    x, y, z, zl = P.D(P.xi), P.D(P.y), P.D(P.zeta), P.D(P.zl)
    zs = z + sh
    zls = zl if shl is None else zl + shl
    L = P.L(zs, zls)
    c = P.C(zeta=zs, zl=zls)
    corr = (-((zs - x) ** 2) + (zs - x - sh) ** 2).sum(-1, keepdim=True) / (2 * q["sx"] ** 2)
    big = float(((zs - x).abs().max() + sh.abs().max() + x.abs().max()) ** 2) / q["sx"] ** 2
    sl = label_scale(q, P)
    if shl is not None and sl is not None:
        corr = corr + (-((zls - y) ** 2) + (zls - y - shl) ** 2).sum(-1, keepdim=True) / (2 * sl ** 2)
        big += float(((zls - y).abs().max() + shl.abs().max() + y.abs().max()) ** 2) / sl ** 2
    g = (L - lam * c) / eps + corr
    v = eps * (pt.logsumexp(g, 0) - math.log(g.shape[0]))
    x2 = float(zs.abs().max()) * float(sum(t.abs().sum() for t in P.params))
    size = float(L.abs().max()) + lam * float(c.abs().max()) + lam * rho ** 2 + eps * (1 + math.log(g.shape[0])) \
        + (1 + x2) ** 2 + eps * (big * q["d"] + float(corr.abs().max()))
    return lam * rho ** 2 + P.reduce(v), size, float(corr.detach().abs().max())


def body(q, ctx):
    # scales representable in float32: samplers store Python scales in that precision
    q = dict(q, p=2., power=2., sx=float(np.float32(q["sx"])), sy=float(np.float32(q["sy"])))
    P = Problem(q, DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss,
                imp_samp=True, lib=True,
                sampler=lambda P: make_sampler(q, P))
    if P.labelled and q["sampler"] == "lib" and (P.cid == "NC" or q["kappa"] == INF):
        # these samplers never move the labels
        P.zl = P.y.unsqueeze(0).expand(P.zeta.shape[0], *P.y.shape).clone()
    got = P.robust.compute_dual(P.xi, P.y, P.zeta, P.zl) if q["form"] == "post" \
        else P.robust(P.xi, P.y, P.zeta, P.zl)
    has_shape(got, (q["m"],) if q["reduction"] == "none" else (), "robust loss")
    g, gl = grads(P)
    if float(g.norm(dim=-1).max()) > 1e9 or (gl is not None and float(gl.norm(dim=-1).max()) > 1e9):
        # displacements of that size are cut
        return False
    lam = P.lam64()
    if lam == 0:
        sh = pt.full_like(g, INF)
        shl = None
    else:
        sh = g / (2 * lam)
        shl = None if (gl is None or P.cid == "NC") else (
            pt.zeros_like(gl) if q["kappa"] == INF else gl / (2 * lam * q["kappa"])
            if q["kappa"] > 0 else gl * INF)
    k = q["m"] if q["reduction"] == "sum" else 1
    rt = 1e-4 if P.dt == pt.float32 else 3e-10
    logn = 1e-6 * q["eps"] * k      # log(n) is taken in float32
    finite = bool(sh.isfinite().all()) and (shl is None or bool(shl.isfinite().all()))
    plain, psize, _ = shifted_dual(q, P, pt.zeros_like(g), None)
    if not finite:
        ctx.tag("fallback")
        close(got, plain, "robust loss without a finite displacement", rtol=0., atol=rt * psize * k + logn)
        return True
    want, size, corr = shifted_dual(q, P, sh, shl)
    tol = rt * size * k + logn
    # a row with an exactly null gradient has no direction: the plain estimate is also accepted
    # (null up to the precision of the tensors: saturated units)
    thr = 1e-4 if P.dt == pt.float32 else 1e-10
    null = bool((g.abs().amax(-1) < thr).any()) or (gl is not None and bool((gl.abs().amax(-1) < thr).any()))
    if null:
        ctx.tag("null-gradient")
        try:
            close(got, plain, "robust loss", rtol=0., atol=rt * psize * k + logn)
            return False
        except Violation:
            pass
    close(got, want, "robust loss with importance sampling", rtol=0., atol=tol)
    diff = float((want - plain).abs().max())
    if diff > 10 * tol:
        ctx.tag("shift matters"); ctx.tag(q["kind"]); ctx.tag(q["sampler"]); ctx.tag(P.cid)
        return True
    return False


def closed(q, ctx):
    """Linear loss, squared cost, Gaussian sampling: the integral is explicit."""
    d, m, n = q["d"], q["m"], 6000
    kind = "lin"
    qq = dict(kind=kind, seed=q["seed"], m=m, n=4, d=d, k=2, dtype="f64", rho=q["rho"], eps=q["eps"],
              lam=q["lam"], cid="NC", p=2., power=2., kappa=1., reduction="none", xstyle="normal",
              zstyle="around", wscale=1., l2=None)
    # moderate exponents, so that the estimator concentrates
    sx = float(np.float32(q["sx"]))
    P = Problem(qq, DualPostSampledLoss, imp_samp=True,
                sampler=lambda P: NoLabelsCostSampler(P.cost, P.xi, sx, seed=None))
    P.robust.n_samples = n
    pt.manual_seed(q["seed"] % (2 ** 31))
    got = P.robust(P.xi, None).detach()
    w = P.params[0].detach().flatten()
    lam, eps = q["lam"], q["eps"]
    a = lam * sx ** 2 / eps
    t2 = float((w * sx / eps).pow(2).sum())
    const = eps * (-.5 * d * math.log1p(2 * a) + t2 / (2 * (1 + 2 * a)))
    want = lam * q["rho"] ** 2 + P.ref(P.D(P.xi)).detach().squeeze(-1) + const
    # standard error of the log-mean-exp from the law of the weights: for shift s the
    # weight is exp(q(u)), Gaussian moments give E[W^2]/E[W]^2
    s = (w / (2 * lam * sx))                       # shift in units of sigma
    b = (w * sx / eps) - 2 * a * s - s              # linear coefficient of the exponent in u
    var_log = d * (math.log1p(2 * a) - .5 * math.log1p(4 * a)) \
        + float((4 * b * b / (2 * (1 + 4 * a)) - b * b / (1 + 2 * a)).sum())
    ratio = math.expm1(min(var_log, 50.))
    if not (0 <= ratio < 5.):
        ctx.tag("not concentrated")
        return False
    # the kurtosis of the weights is bounded through the same ratio; 12 standard errors
    se = eps * math.sqrt(max(ratio, 1e-12) / n)
    close(got, want, "importance-sampled estimate against the closed form", rtol=0.,
          atol=12 * se * (1 + ratio) + 1e-9 + 1e-6 * eps)
    return True


class Apart(nn.Module):
    """User losses whose gradient is undefined at some data points."""
    reduction = "none"

    def __init__(self, c):
        super().__init__()
        self.c = nn.Parameter(c)

    def forward(self, x, y=None):
        if y is None:
            return ((x - self.c) ** 2).sum(-1, keepdim=True).sqrt()
        return (x * x).sum(-1, keepdim=True) * self.c.mean() + ((y - 2.) ** 2).sum(-1, keepdim=True).sqrt()


def undefined(q, ctx):
    """Without a usable gradient, the samples stay where they are."""
    dt = pt.float64
    m, n, d, lab = q["m"], q["n"], q["d"], q["lab"]
    c = tens(q["seed"], 5, (d,))
    x = tens(q["seed"], 1, (m, d))
    y = tens(q["seed"], 2, (m, 1)) if lab else None
    i = q["at"] % m
    if lab:
        y[i] = 2.
    else:
        x[i] = c
    z = x + tens(q["seed"], 3, (n, m, d), "normal", .5)
    w = y + tens(q["seed"], 4, (n, m, 1), "normal", .5) if lab else None
    loss = Apart(c)
    kappa = 3.
    cost = make_cost("NLC" if lab else "NC", 2., 2., kappa)
    s = LabeledCostSampler(cost, x, y, pt.tensor(.5, dtype=dt), 1) if lab else NoLabelsCostSampler(cost, x, pt.tensor(.5, dtype=dt), 1)
    cls = DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss
    R = cls(WrappedPrimalLoss(loss, None, s, lab), cost, n_samples=n, epsilon_0=pt.tensor(q["eps"], dtype=dt),
            rho_0=pt.tensor(q["rho"], dtype=dt), imp_samp=True)
    with pt.no_grad():
        R.lam.fill_(q["lam"])
    got = R.compute_dual(x, y, z, w)
    L = loss(z, w).detach() if lab else loss(z).detach()
    C = ref_cost("NLC" if lab else "NC", 2., 2., kappa, x, z, y, w)
    g = (L - q["lam"] * C) / q["eps"]
    want = q["lam"] * q["rho"] ** 2 + q["eps"] * (pt.logsumexp(g, 0) - math.log(n)).mean()
    close(got, want, "robust loss without a defined displacement", rtol=1e-9, atol=1e-6 * q["eps"] + 1e-10 * float(g.abs().max()) * q["eps"])
    ctx.tag("labels" if lab else "data")
    return True


IS = dict(max_m=5, max_n=7, max_d=4, far=(60, 60, 16), rho=logf(1e-3, 10.), eps=logf(1e-2, 10.),
          lam=st.one_of(*[logf(3e-2, 1e2), logf(.1, 10.)] * 4, logf(1e2, 1e5), st.just(0.)),
          sx=logf(.05, 3.), sy=logf(.05, 3.), form=st.sampled_from(["pre", "post"]),
          sampler=st.sampled_from(["lib", "user"]))
STEEP = dict(IS, lam=logf(1e3, 1e9), eps=logf(1e-1, 1e6))
CASES = [
    Case("steep", dual_params(hist=HIST, kinds=["mse", "nobias", "fmse", "lin", "fsq", "quad", "softplus", "logistic"], dtypes=("f64",), **STEEP)
         .flatmap(lambda q: st.sampled_from([100., 1e3, 1e4]).map(lambda w: dict(q, wscale=w))), body, 400),
    Case("formula", dual_params(hist=HIST, kinds=KINDS, dtypes=("f64", "f64", "f64", "f32"), **IS), body, 2400),
    Case("undefined", fixed(seed=SEED, m=dims(1, 5, 40), n=dims(1, 7, 40), d=dims(1, 4, 12), lab=st.booleans(), at=st.integers(0, 50),
                            form=st.sampled_from(["pre", "post"]), rho=logf(1e-2, 3.), eps=logf(1e-2, 10.), lam=logf(1e-2, 1e2)), undefined, 200),
    Case("closed_form", fixed(seed=SEED, d=dims(1, 4, 10), m=st.integers(1, 3), rho=logf(1e-2, 3.), eps=logf(.1, 5.),
                              lam=logf(.2, 5.), sx=logf(.2, 1.5)), closed, 500),
]
