"""D09: the starting multiplier against the dual of the linearised loss."""
import math

import torch as pt
from hypothesis import strategies as st

from harness import zoo
from harness.core import Case, check, close
from harness.dual import INF, HIST, DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params, ref_cost
from harness.gen import logf
from harness.props.d03 import grads

RULE = ("Starting multipliers of generated robust losses with smooth models, compared with the mean of the gradient sizes "
        "and with a search of the linearised dual; non-trivial when the multiplier is positive and finite.")
ASSUMPTIONS = ["torch elementary operations and automatic differentiation are trusted"]
KINDS = zoo.SMOOTH_LABELLED + zoo.SMOOTH_UNLABELLED + zoo.BUILTIN_LABELLED


def sizes(P):
    """Per-sample gradient sizes in the norm of the cost, (m, 1)."""
    g, gl = grads(P)
    return ref_cost(P.cid, P.q["p"], 1., P.q["kappa"], g, pt.zeros_like(g), gl, None if gl is None else pt.zeros_like(gl))


def guess(q, ctx):
    form = DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss
    P = Problem(q, form, imp_samp=q["imp"])
    p, rho = q["power"], float(P.robust.rho.detach().double())
    n = sizes(P)
    back = P.robust.get_initial_guess_at_dual(P.xi, P.y)
    got = P.lam64()
    close(back, pt.tensor(got, dtype=pt.float64), "returned multiplier and the one in use", rtol=1e-6, atol=0.)
    ctx.tag(f"power={p}")
    if p == 1.:
        check(math.isfinite(got) and got >= 0, f"starting multiplier {got}")
        return got > 0
    c = p / (p - 1.)
    mid = (n ** p * q["m"] * rho ** p)
    big = mid[mid > 0] ** (c - 1.)
    if P.dt == pt.float32 and big.numel() and (float(big.max()) > 1e30 or float(mid.max()) > 1e30 or float(big.max()) < 1e-30):
        return False        # out of the range of the tensors
    want = float((n ** c).mean() ** (1 / c)) / (p * rho ** (p - 1.))
    # gradients are rounded to the precision of the tensors, the power to float32
    err = 1e-3 if P.dt == pt.float32 else 1e-5
    g, gl = grads(P)
    top = float(g.abs().max()) + (0. if gl is None else float(gl.abs().max()))
    x2 = float(P.D(P.xi).abs().max()) * float(sum(t.abs().sum() for t in P.params))
    floor = (3e-6 if P.dt == pt.float32 else 1e-13) * (top + (1 + x2) ** 2) / (p * rho ** (p - 1.))
    close(pt.tensor(got, dtype=pt.float64), pt.tensor(want, dtype=pt.float64), "starting multiplier", rtol=err, atol=floor)
    # starting again from another multiplier gives the same one
    P.set_lam(q["lam"] + 1.)
    P.robust.get_initial_guess_at_dual(P.xi, P.y)
    close(pt.tensor(P.lam64(), dtype=pt.float64), pt.tensor(got, dtype=pt.float64), "starting multiplier, again", rtol=1e-6, atol=0.)
    # minimiser of the dual of the linearised loss
    if P.cid == "NC" and q["p"] == 2. and want > 1e3 * floor:
        def linear(lam):
            # sup_t |g| t - lam t^p
            t = (n / (lam * p)) ** (1. / (p - 1.))
            return lam * rho ** p + float((n * t - lam * t ** p).mean())
        v = linear(got)
        for f in (.5, .9, 1.1, 2.):
            check(v <= linear(got * f) * (1 + 1e-6), f"multiplier {got * f} beats {got} on the linearised loss")
        ctx.tag("linearised dual")
    P.set_rho(0.)
    P.robust.get_initial_guess_at_dual(P.xi, P.y)
    check(P.lam64() == 0., f"multiplier {P.lam64()} without a radius")
    return want > 0 and math.isfinite(want)


CASES = [Case("guess", dual_params(hist=HIST, kinds=KINDS, rho=logf(1e-2, 10.), form=st.sampled_from(["pre", "post"]), imp=st.booleans()),
              guess, 900, 12000)]
