"""E03: estimators are functions of their parameters and data."""
import numpy as np
import torch as pt
from cvxpy.error import SolverError
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.exceptions import NotFittedError

from skwdro.linear_models import LinearRegression, LogisticRegression
from skwdro.operations_research import NewsVendor, Portfolio, Weber
from skwdro.solvers.optim_cond import OptCondTorch

from harness.core import Case, check, close, fail, must_raise, same, to_np
from harness.fits import BUDGET, TORCH, quiet, steps
from harness.gen import SEED, arr, dims, fixed, logf, rng

RULE = ("Estimators with generated parameters fitted several times around other activity in the process, or used in "
        "invalid ways; non-trivial when the fit moved the coefficients or the invalid use was attempted.")

CLS = {"linear": LinearRegression, "logistic": LogisticRegression, "newsvendor": NewsVendor, "portfolio": Portfolio, "weber": Weber}
LABELLED = ("linear", "logistic", "weber")
EXTRA = {
    "linear": dict(l2_reg=st.sampled_from([0., .1]), fit_intercept=st.booleans(), cost=st.sampled_from(["t-NLC-2-2", "t-NLC-2-2-10", "t-NLC-1-1"]),
                   solver_reg=st.sampled_from([None, .1]), sampler_reg=st.sampled_from([None, .1])),
    "logistic": dict(l2_reg=st.sampled_from([0., .1]), fit_intercept=st.booleans(), cost=st.sampled_from(["t-NLC-2-2", "t-NLC-2-2-10"]),
                     solver_reg=st.sampled_from([None, .1]), sampler_reg=st.sampled_from([None, .1])),
    "newsvendor": dict(k=st.sampled_from([5, 2.]), u=st.sampled_from([7, 20.]), cost=st.sampled_from(["t-NC-1-2", "t-NC-2-2"]),
                       solver_reg=st.sampled_from([.01, .1]), l2_reg=st.sampled_from([0., .1])),
    "portfolio": dict(eta=st.sampled_from([0., 1.]), alpha=st.sampled_from([.95, .3]), cost=st.sampled_from(["t-NC-1-1", "t-NC-1-2", "t-NC-2-2"]),
                      solver_reg=st.sampled_from([.001, .1]), support=st.booleans()),
    "weber": dict(l2_reg=st.sampled_from([0., .1]), solver_reg=st.sampled_from([.01, .1]), sampler_reg=st.sampled_from([.01, .1]),
                  kappa=st.sampled_from([10., 1.]), cost=st.sampled_from(["t-NLC-2-2", "t-NLC-2-2-10"])),
}


@st.composite
def configs(draw, kinds=tuple(CLS), solvers=None):
    kind = draw(st.sampled_from(list(kinds)))
    b = draw(fixed(**BUDGET))
    c = draw(fixed(**EXTRA[kind]))
    s = TORCH + ([] if kind == "weber" else ["dedicated"])
    c.update(rho=b["rho"], n_iter=b["n_iter"], random_state=b["random_state"], n_zeta_samples=b["n_zeta"],
             solver=draw(st.sampled_from(solvers or s)), learning_rate=draw(st.sampled_from([None, None, .05])),
             opt=draw(st.sampled_from(["default", "none", "loose", "both"])))
    return dict(kind=kind, conf=c, seed=draw(SEED), m=draw(dims(4, 10, 80)), d=draw(dims(1, 3, 12)), classes=draw(st.sampled_from([2, 2, 3])),
                unit=draw(st.sampled_from([1., 1., 1., 200., .01])))


def build(q):
    c = dict(q["conf"])
    opt = c.pop("opt")
    c["n_iter"] = steps(c["n_iter"])
    if opt == "none":
        c["opt_cond"] = None
    elif opt == "loose":
        c["opt_cond"] = OptCondTorch(2, 1e-1, 1e-1)
    elif opt == "both":
        c["opt_cond"] = OptCondTorch("inf", 1e-2, 1e-2, monitoring="both", metric="param")
    if c.pop("support", False):
        # a box around the data, and a redundant half-space
        d = q["d"]
        c["C"] = np.vstack([2. * np.eye(d), -np.eye(d), np.ones((1, d))])
        c["d"] = np.full((2 * d + 1, 1), 1e3 * q.get("unit", 1.))
    return CLS[q["kind"]](**c)


def sample(q, key=1):
    """Data of the problem, in small or large units."""
    return tuple(a if a.dtype.kind == "i" else a * q.get("unit", 1.) for a in points(q, key))


def points(q, key):
    X = arr(q["seed"], key, (q["m"], q["d"]))
    r = rng(q["seed"], key, 2)
    kind = q["kind"]
    if kind == "newsvendor":
        return (np.abs(X[:, :1]) * 3,)
    if kind == "portfolio":
        return (X,)
    if kind == "weber":
        return X, r.random(q["m"]) * 2
    if kind == "linear":
        return X, X.sum(1) + r.standard_normal(q["m"])
    k = 2 if q["conf"]["solver"] == "dedicated" else q["classes"]
    y = r.integers(0, k, q["m"])
    y[:k] = np.arange(k)
    return X, y


def look(e, q):
    """Everything a user can observe of a fitted estimator."""
    out = {}
    for a in ("coef_", "intercept_", "dual_var_", "robust_loss_", "tau_", "result_"):
        v = getattr(e, a, None)
        out[a] = None if v is None else to_np(v, a)
    Z = sample(q, 5)
    if q["kind"] == "linear":
        out["predict"] = to_np(quiet(e.predict, Z[0]), "prediction")
    elif q["kind"] == "logistic":
        out["predict"] = to_np(quiet(e.predict, Z[0]), "prediction")
        out["proba"] = to_np(quiet(e.predict_proba, Z[0]), "probabilities")
    else:
        out["eval"] = to_np(quiet(e.eval, *Z), "evaluation")
    return out


def agree(a, b, what, tol):
    for k in b:
        if a[k] is None or b[k] is None:
            check(a[k] is None and b[k] is None, f"{k} {what}: {a[k]} against {b[k]}")
        elif tol:
            close(a[k], b[k], f"{k} {what}", rtol=tol, atol=tol)
        else:
            same(a[k], b[k], f"{k} {what}")


def params_of(e):
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in e.get_params().items()}


def same_params(a, b, what):
    check(set(a) == set(b), f"{what}: parameter names changed")
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            same(y, x, f"{what}: parameter {k}")
            continue
        check(x is y or (type(x) in (int, float, str, tuple, bool, type(None)) and x == y),
              f"{what}: parameter {k} is {y!r} instead of {x!r}")


def disturb(seed):
    pt.manual_seed(seed)
    np.random.seed(seed % 2**32)
    pt.randn(5)
    np.random.rand(3)


def repeat(q, ctx):
    data = sample(q)
    keep = [d.copy() for d in data]
    e = build(q)
    if q["conf"]["rho"] == 0. and q["conf"]["opt"] == "both":
        e.set_params(opt_cond=None)
    before = params_of(e)
    try:
        check(quiet(e.fit, *data) is e, "fit does not return the estimator")
        first = look(e, q)
        if not all(np.isfinite(v).all() for v in first.values() if v is not None):
            ctx.tag("diverged")
        # numerical solvers called twice on equal data give equal results as well
        same_params(before, params_of(e), "fitting")
        for d, k in zip(data, keep):
            same(d, k, "data after fitting")
        agree(look(e, q), first, "when predicting again", 0)
        same_params(before, params_of(e), "predicting")
        disturb(q["seed"])
        o = dict(q, kind=q["other"]["kind"], conf=q["other"]["conf"], seed=q["seed"] ^ 55)
        f = build(o)
        if o["conf"]["rho"] == 0.:
            f.set_params(opt_cond=None)
        quiet(f.fit, *sample(o))
        agree(look(e, q), first, "after another estimator was fitted", 0)
        disturb(q["seed"] + 1)
        g = copied(e)
        same_params(before, params_of_clone(g, before), "cloning")
        quiet(g.fit, *data)
        agree(look(g, q), first, "of a clone", 0)
        disturb(q["seed"] + 2)
        quiet(e.fit, *[d.copy() for d in data])
        agree(look(e, q), first, "when fitting again", 0)
        # a history of another data set leaves no trace
        if q["history"]:
            h = copied(e)
            other = dict(q, seed=q["seed"] ^ 3, m=q["m"] + 1, d=q["d"] if q["conf"].get("support") else q["d"] % 3 + 1, classes=5 - q["classes"])
            quiet(h.fit, *sample(other))
            quiet(h.fit, *data)
            agree(look(h, q), first, "after a fit on other data", 0)
            ctx.tag("history")
    except SolverError:
        ctx.tag("gave up")
        return False
    ctx.tag(f"{q['kind']}/{q['conf']['solver']}")
    return True


def copied(e):
    try:
        return clone(e)
    except Exception as exc:
        fail(f"a fitted estimator cannot be cloned: {type(exc).__name__}: {exc}")


def params_of_clone(g, before):
    """Cloning copies objects: compare criteria by their settings."""
    p = params_of(g)
    for k, v in p.items():
        if isinstance(v, OptCondTorch) and isinstance(before[k], OptCondTorch):
            a, b = vars(v), vars(before[k])
            for n in ("order", "tol_theta", "tol_lambda", "monitoring", "mode", "metric"):
                check(a.get(n) == b.get(n), f"cloning: {n} of the stopping criterion is {a.get(n)} instead of {b.get(n)}")
            p[k] = before[k]
    return p


@st.composite
def repeats(draw):
    q = draw(configs())
    q["other"] = draw(configs())
    q["history"] = draw(st.booleans())
    return q


def roundtrip(q, ctx):
    e = build(q)
    p = params_of(e)
    f = CLS[q["kind"]]()
    check(f.set_params(**p) is f, "set_params does not return the estimator")
    same_params(p, params_of(f), "set_params after get_params")
    for k, v in q["conf"].items():
        if k in ("opt", "support"):
            continue
        check(p[k] == (steps(v)), f"parameter {k} given as {v!r} reads {p[k]!r}")
    e.set_params(rho=.25)
    check(e.get_params()["rho"] == .25, "set_params(rho) ignored")
    same_params({k: v for k, v in p.items() if k != "rho"}, {k: v for k, v in params_of(e).items() if k != "rho"}, "set_params(rho)")
    must_raise((ValueError,), lambda: e.set_params(nonsense=1), "an unknown parameter")
    # fitting after set_params uses the new value
    e.set_params(**{k: p[k] for k in p})
    ctx.tag(q["kind"])
    return True


def reject(q, ctx):
    kind, how = q["kind"], q["how"]
    cls = CLS[kind]
    data = list(sample(q))
    bad = (ValueError, TypeError, NotImplementedError, AssertionError, DeprecationWarning)
    crash = bad + (RuntimeError,)
    base = build(q).get_params()

    def fit(**kw):
        return quiet(cls(**dict(base, **kw)).fit, *data)
    if how == "rho":
        for r in (-1e-9, -1., -float("inf")):
            must_raise((ValueError,), lambda: cls(**dict(base, rho=r)), f"{kind} with radius {r}")
    elif how == "rho type":
        must_raise(bad, lambda: fit(rho="abc"), f"{kind} with a textual radius")
    elif how == "solver":
        for s in ("foo", "", "dedicate", "Dedicated", "entropic", "sgd", "entropic_tensor", "entropic_", "ENTROPIC_TORCH", "dedicated_", "tor_ch"):
            must_raise(bad, lambda: fit(solver=s), f"{kind} with solver {s!r}")
    elif how == "unfitted":
        e = cls(**base)
        Z = sample(q, 5)
        if kind in ("linear", "logistic"):
            must_raise((NotFittedError,), lambda: quiet(e.predict, Z[0]), f"{kind}: predict before fit")
        if kind == "logistic":
            must_raise((NotFittedError,), lambda: quiet(e.predict_proba, Z[0]), f"{kind}: predict_proba before fit")
        if hasattr(e, "predict_proba_2Class"):
            must_raise((NotFittedError,), lambda: quiet(e.predict_proba_2Class, Z[0]), f"{kind}: probability of the second class before fit")
        if kind not in ("linear", "logistic"):
            must_raise((NotFittedError,), lambda: quiet(e.eval, *Z), f"{kind}: eval before fit")
            must_raise((NotFittedError,), lambda: quiet(e.score, *Z), f"{kind}: score before fit")
    elif how in ("nan", "inf"):
        v = np.nan if how == "nan" else np.inf
        i = q["seed"] % len(data) if kind in ("linear", "weber") else 0
        data[i] = data[i].astype(float)
        data[i].reshape(-1)[q["seed"] % data[i].size] = v
        must_raise(bad, fit, f"{kind}: {how} in the training data")
    elif how == "empty":
        data = [d[:0] for d in data]
        must_raise(bad, fit, f"{kind}: empty training data")
    elif how == "one dim":
        data[0] = data[0][:, 0]
        must_raise(bad, fit, f"{kind}: one-dimensional training data")
    elif how == "mismatch":
        if kind in LABELLED:
            data[1] = data[1][:-1]
            must_raise(bad, fit, f"{kind}: fewer targets than rows")
    elif how == "class":
        if kind == "logistic":
            data[1] = np.zeros(q["m"])
            must_raise((ValueError,), fit, "a single class")
            data[1] = np.linspace(0., 1., q["m"]) + .123
            must_raise((ValueError,), fit, "continuous targets in a classifier")
    elif how == "missing":
        if kind in LABELLED:
            must_raise(bad, lambda: quiet(cls(**base).fit, data[0], None), f"{kind}: no targets")
    elif how == "features":
        e = None
        try:
            e = fit()
        except SolverError:
            return False
        Z = np.ones((3, data[0].shape[1] + 2))
        if kind in ("linear", "logistic"):
            must_raise(crash, lambda: quiet(e.predict, Z), f"{kind}: predicting from {Z.shape[1]} features after {data[0].shape[1]}")
            N = np.full((2, data[0].shape[1]), np.nan)
            must_raise(crash, lambda: quiet(e.predict, N), f"{kind}: predicting from NaN")
    elif how == "portfolio":
        if kind == "portfolio":
            for kw in (dict(eta=-.1), dict(eta=-1e-9), dict(alpha=0.), dict(alpha=-.5), dict(alpha=1.5), dict(alpha=1. + 1e-9),
                       dict(solver_reg=-1.), dict(solver_reg=-1e-9), dict(n_zeta_samples=-1)):
                must_raise((ValueError,), lambda: cls(**dict(base, **kw)), f"portfolio with {kw}")
    ctx.tag(how)
    ctx.tag(kind)
    return True


@st.composite
def rejects(draw):
    q = draw(configs())
    q["how"] = draw(st.sampled_from(["rho", "rho type", "solver", "unfitted", "nan", "inf", "empty", "one dim", "mismatch", "class",
                                     "missing", "features", "portfolio"]))
    return q


def numbers(q, ctx):
    """A radius given as another kind of number is the same radius."""
    data = sample(q)
    r = {"float32": np.float32, "int": lambda v: int(np.ceil(v)), "int64": lambda v: np.int64(np.ceil(v)),
         "0d": np.array}[q["as"]](q["conf"]["rho"])
    if q["conf"]["opt"] == "both":
        q["conf"] = dict(q["conf"], opt="default")
    try:
        a, b = (quiet(build(dict(q, conf=dict(q["conf"], rho=v))).fit, *data) for v in (r, float(r)))
    except SolverError:
        ctx.tag("gave up")
        return False
    check(float(a.rho) == float(r), f"radius {a.rho} after fitting with {r!r}")
    agree(look(a, q), look(b, q), f"of a fit with the radius {r!r} against {float(r)}", 0)
    ctx.tag(q["as"])
    return float(r) > 0


CASES = [
    Case("numbers", configs().flatmap(lambda q: st.sampled_from(["float32", "int", "int64", "0d"]).map(lambda t: {**q, "as": t})),
         numbers, 60, 600),
    Case("repeat", repeats(), repeat, 120, 1800),
    Case("roundtrip", configs(), roundtrip, 60, 600),
    Case("reject", rejects(), reject, 200, 2500),
]
