"""D04: gradients of the robust loss against the derivatives of the documented dual."""
import torch as pt
from hypothesis import strategies as st

from harness import zoo
from harness.core import Case, check, close, fail
from harness.dual import HIST, DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params
from harness.gen import logf
from harness.props import d03

RULE = ("Generated robust losses (model, cost, samples, reduction, form); non-trivial when some reference "
        "gradient is non-zero and the softmax weights are not all equal.")
ASSUMPTIONS = ["torch elementary operations and automatic differentiation of the reference formula are trusted"]


def params_of(P):
    return zoo.model_params(P.loss_, P.transform_)


def scalar(v):
    return v.sum() if v.dim() else v


def compare(P, got, want, tol, what):
    names = [f"parameter {i}" for i in range(len(got))]
    for n, g, w in zip(names, got, want):
        check(g is not None, f"{what}: no gradient for {n}")
        w = pt.zeros_like(g).double() if w is None else w
        close(g, w.reshape(g.shape), f"{what}: gradient of {n}", rtol=0., atol=tol)


def gtol(P, want, wl):
    """Rounding: weights carry relative errors of the exponents."""
    L, c = P.terms()
    eps = float(P.robust.epsilon.detach())
    expo = float(((L - P.lam64() * c).abs().max()) / eps)
    ulp = 6e-8 if P.dt == pt.float32 else 1.1e-16
    # relative error of each softmax weight times the largest gradient entry over samples
    rel = min(1., ulp * (50 + 20 * expo * P.q["d"]))
    x = 1 + float(P.D(P.zeta).abs().max())
    s = float(sum(t.detach().abs().sum() for t in P.params)) + 1
    y = 1 + (float(P.D(P.zl).abs().max()) if P.zl is not None else 0.)
    k = P.q["m"] if P.q["reduction"] in ("sum", "none") else 1
    l2 = (P.l2 or 0.) * s
    g = (x * s + y) * x * s * 4 + l2
    # the usual formulas of log(1 + exp) are switched at 20, exp(-20) apart, which also moves the weights
    rel = min(1., rel + 3e-9 * (1 + 1 / eps))
    return rel * k * g, rel * k * (float(c.max()) + float(P.robust.rho.detach()) ** P.q["power"])


def body(q, ctx):
    cls = DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss
    P = Problem(q, cls)
    ps = params_of(P)

    def run():
        P.robust.zero_grad(set_to_none=True)
        v = P.robust(P.xi, P.y, P.zeta, P.zl)
        check(v.requires_grad, "robust loss not differentiable")
        scalar(v).backward()
        return v.detach(), [None if p.grad is None else p.grad.clone() for p in ps], \
            None if P.robust.lam.grad is None else P.robust.lam.grad.clone()
    v, g, gl = run()
    lam = pt.tensor(P.lam64(), dtype=pt.float64, requires_grad=True)
    ref = scalar(P.ref_dual(lam=lam))
    rg = pt.autograd.grad(ref, P.params + [lam], allow_unused=True)
    tg, tl = gtol(P, rg[:-1], rg[-1])
    compare(P, g, rg[:-1], tg, "robust loss")
    check(gl is not None, "no gradient for the multiplier")
    close(gl, rg[-1], "gradient of the multiplier", rtol=0., atol=tl)
    for name, t in (("radius", P.robust.rho), ("temperature", P.robust.epsilon)):
        check(t.grad is None or not bool(t.grad.abs().sum() > 0), f"gradient reached the {name}")
    # a second evaluation gives the same value and gradients
    v2, g2, gl2 = run()
    check(bool((v == v2).all()), "second evaluation differs")
    for a, b in zip(g + [gl], g2 + [gl2]):
        check(bool((a == b).all()), "second backward differs")
    ctx.tag(q["kind"]); ctx.tag(q["form"]); ctx.tag(f"red={q['reduction']}")
    L, c = P.terms()
    t = (L - P.lam64() * c)
    return q["n"] > 1 and bool((t.max(0).values - t.min(0).values).max() > 1e-6) \
        and any(w is not None and bool(w.abs().max() > 10 * tg) for w in rg[:-1])


def erm(q, ctx):
    """At a zero radius or in ERM mode the gradient is that of the empirical loss."""
    cls = DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss
    P = Problem(dict(q, rho=0.) if q["zero"] else q, cls)
    if not q["zero"]:
        P.robust.erm_mode = True
    ps = params_of(P)
    v = P.robust(P.xi, P.y, P.zeta, P.zl)
    scalar(v).backward()
    ref = scalar(P.reduce(P.L(P.D(P.xi), P.D(P.y))))
    rg = pt.autograd.grad(ref, P.params, allow_unused=True)
    tg, _ = gtol(P, rg, None)
    x = 1 + float(P.D(P.xi).abs().max())
    compare(P, [p.grad for p in ps], rg, tg * 0 + (2e-5 if P.dt == pt.float32 else 1e-9) * x * x * 30 *
            (1 + float(sum(t.detach().abs().sum() for t in P.params))) *
            (q["m"] if q["reduction"] in ("sum", "none") else 1) * (1 + (P.l2 or 0.)), "empirical loss")
    gl = P.robust.lam.grad
    check(gl is None or not bool(gl.abs().any()), "the empirical loss pulls the multiplier")
    return True


def impsamp(q, ctx):
    """With importance sampling, the derivative at fixed displaced samples."""
    import numpy as np
    q = dict(q, p=2., power=2., sx=float(np.float32(q["sx"])), sy=float(np.float32(q["sy"])))
    P = Problem(q, DualPreSampledLoss, imp_samp=True, sampler=lambda P: d03.GaussSampler(P, q["sx"], q["sy"]))
    g, gl = d03.grads(P)
    if bool((g.abs().amax(-1) < 1e-8).any()) or (gl is not None and bool((gl.abs().amax(-1) < 1e-8).any())):
        return False
    lam0 = P.lam64()
    sh = g / (2 * lam0)
    shl = None if (gl is None or P.cid == "NC") else gl / (2 * lam0 * q["kappa"])
    ps = params_of(P)
    P.robust.zero_grad(set_to_none=True)
    v = P.robust(P.xi, P.y, P.zeta, P.zl)
    scalar(v).backward()
    lam = pt.tensor(lam0, dtype=pt.float64, requires_grad=True)
    keep, P.lam64 = P.lam64, (lambda: lam)
    try:
        x, y, z, zl = P.D(P.xi), P.D(P.y), P.D(P.zeta), P.D(P.zl)
        zs, zls = z + sh, (zl if shl is None else zl + shl)
        L, c = P.L(zs, zls), P.C(zeta=zs, zl=zls)
        corr = (-((zs - x) ** 2) + (zs - x - sh) ** 2).sum(-1, keepdim=True) / (2 * q["sx"] ** 2)
        if shl is not None:
            corr = corr + (-((zls - y) ** 2) + (zls - y - shl) ** 2).sum(-1, keepdim=True) / (2 * q["sy"] ** 2)
        eps = float(P.robust.epsilon.detach())
        expo = (L - lam * c) / eps + corr
        ref = scalar(lam * float(P.robust.rho.detach()) ** 2 + P.reduce(eps * pt.logsumexp(expo, 0)))
    finally:
        P.lam64 = keep
    rg = pt.autograd.grad(ref, P.params + [lam], allow_unused=True)
    size = float((L.detach().abs().max() + lam0 * c.max()) / eps + corr.abs().max()) + \
        float((zs.abs().max() + x.abs().max() + 1) ** 2) / q["sx"] ** 2 * q["d"]
    if shl is not None:
        size += float((zls.abs().max() + y.abs().max() + 1) ** 2) / q["sy"] ** 2 * q["k"]
    rel = min(1., 1.1e-16 * 100 * (1 + size) + 3e-9 * (1 + 1 / eps))
    X = 1 + float(zs.abs().max())
    S = 1 + float(sum(t.detach().abs().sum() for t in P.params))
    Y = 1 + (float(zls.abs().max()) if zls is not None else 0.)
    k = q["m"] if q["reduction"] in ("sum", "none") else 1
    compare(P, [p.grad for p in ps], rg[:-1], rel * k * ((X * S + Y) * X * S * 4 + (P.l2 or 0.) * S), "importance sampling")
    close(P.robust.lam.grad, rg[-1], "gradient of the multiplier with importance sampling", rtol=0.,
          atol=rel * k * (float(c.max()) + q["rho"] ** 2))
    return rel < 1e-3


def tuned(q, ctx):
    """Radius and temperature declared trainable receive their derivatives too."""
    P = Problem(q, DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss, gradient_hypertuning=True)
    R = P.robust
    scalar(R(P.xi, P.y, P.zeta, P.zl)).backward()
    lam, rho, eps = [pt.tensor(float(t.detach().double()), dtype=pt.float64, requires_grad=True) for t in (R.lam, R.rho, R.epsilon)]
    rg = pt.autograd.grad(scalar(P.ref_dual(lam=lam, rho=rho, eps=eps)), P.params + [lam, rho, eps], allow_unused=True)
    tg, tl = gtol(P, rg[:-3], rg[-3])
    compare(P, [p.grad for p in params_of(P)], rg[:-3], tg, "robust loss")
    close(R.lam.grad, rg[-3], "gradient of the multiplier", rtol=0., atol=tl)
    check(R.rho.grad is not None and R.epsilon.grad is not None, "a trainable radius or temperature has no gradient")
    ulp = 6e-8 if P.dt == pt.float32 else 1.1e-16
    close(R.rho.grad, rg[-2], "gradient of the radius", rtol=1e3 * ulp, atol=1e-30, shape=False)
    k = q["m"] if q["reduction"] in ("sum", "none") else 1
    L, c = P.terms()
    x2 = float(P.D(P.zeta).abs().max()) * float(sum(t.abs().sum() for t in P.params))
    expo = float((L.abs().max() + P.lam64() * c.max() + (1 + x2) ** 2) / eps)
    close(R.epsilon.grad, rg[-1], "gradient of the temperature", rtol=0.,
          atol=k * (1e-6 + ulp * (50 + 20 * expo * q["d"]) * (1 + expo)), shape=False)
    return bool(rg[-1].abs() > 1e-5)


FORM = st.sampled_from(["pre", "post"])
CASES = [
    Case("plain", dual_params(hist=HIST, form=FORM, lam=st.one_of(logf(1e-4, 1e3), logf(1e-4, 1e3), logf(1e-4, 1e3), logf(1e3, 1e7), st.just(0.))), body, 2400),
    Case("tuned", dual_params(hist=HIST, form=FORM), tuned, 400),
    Case("erm", dual_params(hist=HIST, form=FORM, zero=st.booleans()), erm, 500),
    Case("impsamp", dual_params(hist=HIST, kinds=d03.KINDS, dtypes=("f64",), max_m=5, max_n=7, max_d=4, far=(60, 60, 16), rho=logf(1e-3, 10.),
                                eps=logf(1e-2, 10.), lam=logf(3e-2, 1e2), sx=logf(.05, 3.), sy=logf(.05, 3.)).map(
        lambda q: dict(q, kappa=q["kappa"] if 0 < q["kappa"] < 1e9 else 1.)), impsamp, 600),
]
