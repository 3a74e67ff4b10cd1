"""E06: parameters the user leaves out."""
import numpy as np
from hypothesis import strategies as st

from skwdro.solvers.optim_cond import OptCondTorch

from harness.core import Case, check, close, to_np
from harness.fits import quiet, steps
from harness.gen import SEED, dims, fixed
from harness.props.e03 import CLS, EXTRA, sample

RULE = ("Estimators built with a generated subset of their parameters, compared with the table of documented defaults and "
        "with the estimator given all parameters; non-trivial when a parameter was left out and the fit succeeded.")
ASSUMPTIONS = ["where documentation and signature disagree (solver names of removed solvers), the default is the solver that exists"]

COMMON = dict(learning_rate=None, n_zeta_samples=10, n_iter=None, random_state=0)
DEFAULTS = {
    "linear": dict(rho=1e-2, l2_reg=0., fit_intercept=True, cost="t-NLC-2-2", solver="entropic_torch", solver_reg=None,
                   sampler_reg=None, **COMMON),
    "logistic": dict(rho=1e-2, l2_reg=0., fit_intercept=True, cost="t-NLC-2-2", solver="entropic_torch", solver_reg=None,
                     sampler_reg=None, **COMMON),
    "newsvendor": dict(rho=1e-2, k=5, u=7, cost="t-NC-1-2", l2_reg=0., solver_reg=.01, **COMMON),
    "portfolio": dict(rho=1e-2, eta=0., alpha=.95, C=None, d=None, fit_intercept=None, cost="t-NC-1-1", solver="dedicated",
                      solver_reg=1e-3, reparam="softmax", **COMMON),
    "weber": dict(rho=1e-1, kappa=10., solver_reg=1e-2, sampler_reg=1e-2, l2_reg=0., cost="t-NLC-2-2", solver="entropic_torch", **COMMON),
}


def outcome(e):
    return [np.ravel(to_np(e.coef_, "coefficients")).astype(float)] + (
        [np.ravel(to_np(e.intercept_, "intercept")).astype(float)] if getattr(e, "intercept_", None) is not None else [])


def omitted(q, ctx):
    kind = q["kind"]
    cls, table = CLS[kind], DEFAULTS[kind]
    empty = cls().get_params()
    for name, v in table.items():
        check(name in empty, f"{kind} has no parameter {name}")
        check(empty[name] == v if v is not None else empty[name] is None, f"{kind}: {name} is {empty[name]!r} by default, documented {v!r}")
    given = {k: v for k, v in q["given"].items() if k in table}
    given["n_iter"] = steps(given["n_iter"]) if "n_iter" in given else (1, 3)
    full = dict(table, **given)
    a = cls(**given)
    have = a.get_params()
    for name, v in full.items():
        check(have[name] is v or have[name] == v, f"{kind} given {given}: {name} is {have[name]!r}, not {v!r}")
    data = sample(dict(q, conf=have))
    fa = quiet(a.fit, *data)
    extra = {} if "solver" in table else dict(solver=have["solver"])
    fb = quiet(cls(**full, **extra, **(dict(opt_cond=OptCondTorch(2)) if kind != "logistic" else {})).fit, *data)
    for u, v in zip(outcome(fa), outcome(fb)):
        check(bool(np.isfinite(v).all()), f"{kind}: parameters {v} after fitting")
        close(u, v, f"{kind}: fit with parameters left out", rtol=1e-6, atol=1e-9)
    ctx.tag(kind)
    ctx.tag(f"{len(given)} given")
    return len(given) < len(full)


def bare(q, ctx):
    """Estimators built without arguments can be fitted, as their examples show."""
    e = CLS[q["kind"]]()
    quiet(e.fit, *sample(dict(q, conf=e.get_params())))
    for v in outcome(e):
        check(bool(np.isfinite(v).all()), f"{q['kind']}: parameters {v} after fitting with defaults")
    ctx.tag(q["kind"])
    return True


@st.composite
def partial(draw):
    kind = draw(st.sampled_from(list(CLS)))
    pool = dict(EXTRA[kind], rho=st.sampled_from([0., .05, .5]), random_state=st.sampled_from([0, 3]), n_zeta_samples=st.sampled_from([1, 4]),
                n_iter=st.sampled_from([2, [1, 2]]))
    names = draw(st.lists(st.sampled_from(sorted(pool)), unique=True, max_size=len(pool)))
    return dict(kind=kind, given={n: draw(pool[n]) for n in names}, seed=draw(SEED), m=draw(dims(4, 8, 60)), d=draw(dims(1, 3, 12)),
                classes=draw(st.sampled_from([2, 2, 3])))


CASES = [Case("bare", fixed(kind=st.sampled_from(list(CLS)), seed=SEED, m=dims(4, 8), d=dims(1, 3), classes=st.just(2)), bare, 3, 60),
         Case("omitted", partial(), omitted, 80, 1000)]
