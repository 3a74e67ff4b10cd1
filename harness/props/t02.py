"""T02: the statistical radius of the portfolio tuner against its formulas."""
import numpy as np
from hypothesis import strategies as st

from skwdro.base.rho_tuners import PortfolioBlanchetRhoTunedEstimator
from skwdro.operations_research import Portfolio

from harness.core import Case, check, close, must_raise, same, to_np
from harness.fits import quiet
from harness.gen import SEED, arr, dims, fixed

RULE = ("Dedicated portfolios tuned on generated returns, every reported statistic recomputed from the zero-radius "
        "decision; non-trivial when some but not all returns fall in the tail.")


def model(q, rho):
    return Portfolio(rho=rho, eta=q["eta"], alpha=q["alpha"], cost=q["cost"], solver="dedicated")


def tuned(q, ctx):
    X = arr(q["seed"], 1, (q["m"], q["d"]), scale=q["scale"])
    X0 = X.copy()
    erm = quiet(model(q, 0.).fit, X)
    th, tau = np.ravel(to_np(erm.coef_, "coef_")), float(np.ravel(to_np(erm.tau_, "tau_"))[0])
    edge = X @ th + tau
    if np.abs(edge).min() < 1e-12:
        ctx.tag("kink")
        return False
    np.random.seed(q["seed"] % 2 ** 31)
    t = PortfolioBlanchetRhoTunedEstimator(model(q, q["rho"]))
    check(quiet(t.fit, X, None) is t, "fit does not return the tuner")
    same(X, X0, "data after tuning")
    close(np.ravel(t.theta_erm_), th, "zero-radius decision", rtol=1e-6, atol=1e-8)
    n, eta, alpha = q["m"], q["eta"], q["alpha"]
    tail = (edge < 0).astype(float)
    h = np.concatenate([-X * (1 + eta / alpha * tail)[:, None], (eta - eta / alpha * tail)[:, None]], 1)
    close(t.h_samples_, h, "gradients of the mean-risk loss in weights and threshold", rtol=1e-9, atol=1e-12)
    # each statistic follows from the normal sample it was computed from
    p = {"t-NC-1-1": 1, "t-NC-1-2": 2, "t-NC-2-2": 2, "t-NC-1-inf": np.inf}[q["cost"]]
    z = to_np(t.normal_samples_, "normal samples")
    want = n * np.linalg.norm(z, ord=p, axis=1) ** 2 / (n + eta / alpha * tail.sum())
    close(np.ravel(t.conjugate_samples_), want, "conjugate statistics", rtol=1e-8, atol=1e-12)
    quant = np.sort(want)[[int(np.floor(.95 * (len(want) - 1))), int(np.ceil(.95 * (len(want) - 1)))]]
    check(quant[0] * (1 - 1e-9) <= t.samples_quantile_ <= quant[1] * (1 + 1e-9), f"quantile {t.samples_quantile_} outside {quant}")
    best = t.best_estimator_
    close(best.rho, np.sqrt(t.samples_quantile_ / n), "selected radius", rtol=1e-9)
    full = quiet(model(q, float(best.rho)).fit, X)
    close(np.ravel(best.coef_), np.ravel(full.coef_), "weights against a direct fit at the selected radius", rtol=1e-5, atol=1e-6)
    check(best.eta == eta and best.alpha == alpha and best.cost == q["cost"], "other parameters were changed")
    ctx.tag(q["cost"])
    return bool(0 < tail.sum() < n)


def refuse(q, ctx):
    must_raise((ValueError,), lambda: PortfolioBlanchetRhoTunedEstimator(None), "a missing estimator")
    return True


COMMON = dict(seed=SEED, m=dims(2, 25, 150), d=dims(2, 4, 8), eta=st.sampled_from([0., .5, 2., 5., 20.]), alpha=st.sampled_from([.95, .5, .1]),
              cost=st.sampled_from(["t-NC-1-1", "t-NC-1-2", "t-NC-1-inf"]), scale=st.sampled_from([1., .05]), rho=st.sampled_from([0., .3]))

CASES = [Case("tuned", fixed(**COMMON), tuned, 60, 400), Case("refuse", fixed(seed=SEED), refuse, 1, 1)]
