"""T01: the radius tuner against the scores of its candidates."""
import contextlib
import io
import logging
import warnings

import numpy as np
from hypothesis import strategies as st
from sklearn.base import BaseEstimator

from skwdro.base.rho_tuners import RhoTunedEstimator
from skwdro.linear_models import LinearRegression

from harness.core import Case, check, close, must_raise, same, to_np
from harness.gen import SEED, arr, dims, fixed, rng

RULE = ("Tuners run on stub estimators whose score is a generated function of the radius and on dedicated regressions; "
        "non-trivial when several radii compete.")


class Stub(BaseEstimator):
    """Its score depends on the radius only."""

    def __init__(self, rho=1e9, best=0., solver_reg=None, tag=0):
        self.rho, self.best, self.solver_reg, self.tag = rho, best, solver_reg, tag

    def fit(self, X, y):
        self.seen_ = (np.array(X), np.array(y))
        return self

    def score(self, X, y):
        return -abs(np.log10(self.rho) - self.best)


def tune(est, X, y, **kw):
    import distributed
    logging.getLogger("distributed").setLevel(logging.ERROR)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        t = RhoTunedEstimator(est, **kw)
        try:
            return t, t.fit(X, y)
        finally:
            # the tuner leaves its client running
            try:
                distributed.default_client().close()
            except ValueError:
                pass


def powers(q):
    return dict(min_power=q["low"], max_power=q["low"] + q["width"])


def stub(q, ctx):
    kw = powers(q)
    grid = [10. ** -i for i in range(kw["max_power"], kw["min_power"], -1)]
    X, y = arr(q["seed"], 1, (q["m"], q["d"])), rng(q["seed"], 2).standard_normal(q["m"])
    X0, y0 = X.copy(), y.copy()
    e = Stub(best=q["best"], tag=q["seed"])
    t, back = tune(e, X, y, **kw)
    check(back is t, "fit does not return the tuner")
    s = [abs(np.log10(r) - q["best"]) for r in grid]
    b = t.best_estimator_
    check(isinstance(b, Stub) and any(abs(b.rho - r) <= 1e-9 * r for r in grid), f"selected radius {b.rho} is not on the grid {grid}")
    got = abs(np.log10(b.rho) - q["best"])
    check(got <= min(s) + 1e-9, f"radius {b.rho} selected, the best one is {grid[int(np.argmin(s))]}")
    check(b.tag == q["seed"] and b.best == q["best"], "other parameters of the estimator were changed")
    same(b.seen_[0], X0, "data of the final fit")
    same(b.seen_[1], y0, "targets of the final fit")
    check(e.rho == 1e9 and not hasattr(e, "seen_"), "the estimator handed over was modified")
    same(X, X0, "data after tuning")
    same(y, y0, "targets after tuning")
    return len(grid) > 1


def regression(q, ctx):
    X = arr(q["seed"], 1, (q["m"], q["d"]))
    y = X.sum(1) + .3 * rng(q["seed"], 2).standard_normal(q["m"])
    e = LinearRegression(rho=7., solver="dedicated", fit_intercept=q["icpt"])
    t, _ = tune(e, X, y, **powers(q))
    b = t.best_estimator_
    check(e.rho == 7. and not hasattr(e, "coef_"), "the estimator handed over was modified")
    ref = LinearRegression(rho=b.rho, solver="dedicated", fit_intercept=q["icpt"]).fit(X, y)
    close(b.coef_, ref.coef_, "coefficients against a direct fit at the selected radius", rtol=1e-6, atol=1e-8)
    close(b.predict(X), ref.predict(X), "predictions against a direct fit", rtol=1e-6, atol=1e-8)
    return True


def refuse(q, ctx):
    must_raise((ValueError,), lambda: RhoTunedEstimator(None), "a missing estimator")
    t = RhoTunedEstimator(Stub(), **powers(q))
    p = t.get_params(deep=False)
    check(p["min_power"] == q["low"] and p["max_power"] == q["low"] + q["width"], f"parameters {p}")
    return True


COMMON = dict(seed=SEED, m=dims(12, 40, 150), d=dims(1, 3, 8), low=st.integers(-5, 3), width=st.integers(1, 9))

CASES = [
    Case("stub", fixed(best=st.floats(-12, 6).map(lambda v: round(v, 2)), **COMMON), stub, 40, 150),
    Case("regression", fixed(icpt=st.booleans(), **COMMON), regression, 12, 50),
    Case("refuse", fixed(**COMMON), refuse, 6, 20),
]
