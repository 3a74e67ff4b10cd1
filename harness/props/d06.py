"""D06: initial multiplier against the minimiser of the linearised dual."""
import numpy as np
import torch as pt
from hypothesis import strategies as st

from harness import zoo
from harness.core import Case, check, close, to_np
from harness.dual import INF, HIST, DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params, norm
from harness.gen import logf, rng
from harness.props.d03 import grads

RULE = ("Generated models, costs, radii and batches; non-trivial when the gradients at the data points are not "
        "all null (squared unlabelled cost) or when the guess changes the multiplier (other costs).")
ASSUMPTIONS = ["automatic differentiation of the reference loss is trusted"]


def make(q):
    return Problem(q, DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss, imp_samp=q["imp"])


def rt(P):
    return 2e-4 if P.dt == pt.float32 else 1e-9


def squared(q, ctx):
    q = dict(q, cid="NC", power=2.)
    if q["tiny"] and q["dtype"] == "f64":
        # multipliers far beyond the usual ones
        q = dict(q, rho=q["rho"] * 1e-7)
    P = make(q)
    # whether the multiplier is trained, or the loss empirical, does not matter
    if q["state"] == "frozen":
        P.robust.freeze()
    elif q["state"] == "erm":
        P.robust.erm_mode = True
    got = P.robust.get_initial_guess_at_dual(P.xi, P.y)
    g, _ = grads(P)
    rho = float(P.robust.rho.detach().double())
    sq = norm(g, q["p"]) ** 2
    want = float(sq.mean().sqrt()) / (2 * rho)
    # rounding of the gradients themselves: cancellation against the size of the model
    s = (1 + float(P.D(P.xi).abs().max())) * (1 + float(sum(t.detach().abs().sum() for t in P.params))) ** 2
    a = (1e-5 if P.dt == pt.float32 else 1e-13) * s * q["d"] / (2 * rho)
    close(P.robust.lam, want, "initial multiplier", rtol=rt(P), atol=a, shape=False)
    if got is not None:
        close(got, want, "returned initial multiplier", rtol=rt(P), atol=a, shape=False)
    # it minimises lambda rho^2 + mean |g|^2 / (4 lambda)
    lam = P.lam64()

    def f(l):
        return l * rho ** 2 + float(sq.mean()) / (4 * l)
    if lam > 10 * a:
        for t in (.5, .9, 1.1, 2.):
            check(f(lam) <= f(lam * t) * (1 + 1e-6), f"multiplier {lam} does not minimise the linearised dual")
    ctx.tag(f"p={q['p']}"); ctx.tag(q["kind"])
    return want > 10 * a


def general(q, ctx):
    P = make(q)
    before = P.lam64()
    P.robust.get_initial_guess_at_dual(P.xi, P.y)
    lam = P.lam64()
    check(np.isfinite(lam) and lam >= 0, f"initial multiplier {lam}")
    # it does not depend on the multiplier held before, nor on the order of the data
    P.set_lam(q["lam2"])
    i = pt.as_tensor(rng(q["seed"], 5).permutation(q["m"]))
    P.robust.get_initial_guess_at_dual(P.xi[i], None if P.y is None else P.y[i])
    tiny = 1e-30
    close(P.lam64(), lam, "initial multiplier for permuted data", rtol=1e-4 if P.dt == pt.float32 else 1e-9, atol=tiny)
    # the loss then uses it
    P.set_lam(lam)
    P.robust.imp_samp = False
    got = P.robust.compute_dual(P.xi, P.y, P.zeta, P.zl)
    close(got, P.ref_dual(), "robust loss with the initial multiplier", **P.tol())
    # zero radius
    P.set_rho(0.)
    P.robust.get_initial_guess_at_dual(P.xi, P.y)
    check(P.lam64() == 0., f"multiplier {P.lam64()} for a zero radius")
    ctx.tag(P.cid)
    return lam != before


def duplicate(q, ctx):
    """The guess is an average: repeating the batch does not change it."""
    q = dict(q, cid="NC", power=2.)
    P = make(q)
    P.robust.get_initial_guess_at_dual(P.xi, P.y)
    lam = P.lam64()
    r = q["rep"]
    # squares of gradients too small for the format vanish
    tiny = (1e-18 if P.dt == pt.float32 else 1e-150) * (1 / q["rho"] + 1 / q["rho"] ** 2)
    P.robust.get_initial_guess_at_dual(P.xi.repeat(r, 1), None if P.y is None else P.y.repeat(r, 1))
    close(P.lam64(), lam, "initial multiplier of a repeated batch", rtol=rt(P), atol=tiny)
    P.set_rho(q["rho"] * 2.)
    P.robust.get_initial_guess_at_dual(P.xi, P.y)
    close(P.lam64(), lam / 2, "initial multiplier for a doubled radius", rtol=rt(P), atol=tiny)
    return lam > 10 * tiny


X = dict(form=st.sampled_from(["pre", "post"]), imp=st.booleans())
CASES = [
    Case("squared", dual_params(hist=HIST, state=st.sampled_from(["", "", "frozen", "erm"]),
                                tiny=st.sampled_from([False, False, False, True]), **X), squared, 1500),
    Case("general", dual_params(hist=HIST, lam2=logf(1e-3, 1e3), **X), general, 1000),
    Case("duplicate", dual_params(hist=HIST, rep=st.integers(2, 4), **X), duplicate, 500),
]
