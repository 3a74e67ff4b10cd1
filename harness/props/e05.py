"""E05: estimators inside scikit-learn's model selection against folds fitted by hand."""
import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, KFold, StratifiedKFold, cross_val_predict, cross_val_score
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler

from skwdro.solvers.optim_cond import OptCondTorch

from harness.core import Case, check, close, same, to_np
from harness.fits import quiet, steps
from harness.gen import SEED, dims
from harness.props.e04 import CLS, configs, data

RULE = ("Estimators handed to grid search, cross validation and pipelines, compared with clones fitted and scored by "
        "hand on the same folds; non-trivial when the scores of the candidates differ.")


def build(q, **over):
    c = dict(q["conf"], n_iter=steps(q["conf"]["n_iter"]), opt_cond=OptCondTorch(2), **over)
    if q["dedicated"] and q["kind"] != "weber" and not (q["kind"] == "logistic" and q["k"] > 2):
        c["solver"] = "dedicated"
        if q["kind"] == "portfolio":
            c["cost"] = "t-NC-1-1"
    return CLS[q["kind"]](**c)


def fit(e, X, y):
    return quiet(e.fit, X) if y is None else quiet(e.fit, X, y)


def score(q, e, X, y):
    """Score from the documentation of the metric."""
    k, c = q["kind"], q["conf"]
    if k == "linear":
        r = y - np.ravel(e.predict(X))
        return 1. - float(r @ r) / float(((y - y.mean()) ** 2).sum())
    if k == "logistic":
        return float(np.mean(np.ravel(e.predict(X)) == y))
    w = np.ravel(to_np(e.coef_, "coef_"))
    if k == "newsvendor":
        t = float(w[0])
        return -float(np.mean(c["k"] * t - c["u"] * np.minimum(t, X[:, 0])))
    if k == "weber":
        return -float(np.mean(y * np.linalg.norm(X - w, axis=1))) - c["l2_reg"] / 2 * float(w @ w)
    return None


def folds(q, X, y):
    """Splits for the search; stratified for a classifier, so that it always sees all classes (each has two members)."""
    cls = StratifiedKFold if q["kind"] == "logistic" else KFold
    cv = cls(min(q["folds"], 3) if q["kind"] == "logistic" else q["folds"], shuffle=q["shuffle"], random_state=q["seed"] if q["shuffle"] else None)
    return [(a, b) for a, b in quiet(lambda: list(cv.split(X, y)))]


def grid(q, ctx):
    X, y = data(q)
    X, y = np.concatenate([X, X + .25]), None if y is None else np.concatenate([y, y])
    rhos = q["rhos"]
    sp = folds(q, X, y)
    if q["kind"] == "linear" and any(np.ptp(y[b]) < 1e-3 for _, b in sp):
        # the coefficient of determination needs different labels
        return False
    e = build(q)
    before = dict(e.get_params())
    g = GridSearchCV(e, {"rho": rhos}, cv=sp, error_score="raise")
    fit(g, X, y)
    after = e.get_params()
    check(all(after[k] is before[k] or after[k] == before[k] for k in before), "the search changed the estimator handed over")
    want = np.empty((len(rhos), len(sp)))
    for i, rho in enumerate(rhos):
        for j, (a, b) in enumerate(sp):
            f = fit(clone(build(q)).set_params(rho=rho), X[a], None if y is None else y[a])
            s = score(q, f, X[b], None if y is None else y[b])
            if s is None:
                s = f.score(X[b])
                close(s, -float(np.ravel(to_np(f.eval(X[b]), "eval"))[0]), "score against minus the evaluated loss", rtol=1e-6, atol=1e-9)
            want[i, j] = s
    got = np.stack([g.cv_results_[f"split{j}_test_score"] for j in range(len(sp))], 1)
    if not np.isfinite(want).all() or np.abs(want).max() > 1e6:
        ctx.tag("diverged")
        return False
    close(got, want, "scores of the folds", rtol=1e-4, atol=1e-5)
    m = got.mean(1)
    check(g.best_params_["rho"] in rhos and m[rhos.index(g.best_params_["rho"])] >= m.max() - 1e-12, f"best radius {g.best_params_} of scores {m}")
    full = fit(build(q).set_params(rho=g.best_params_["rho"]), X, y)
    same(to_np(g.best_estimator_.coef_, "coef_"), to_np(full.coef_, "coef_"), "refitted coefficients")
    ctx.tag(q["kind"] + ("/dedicated" if full.solver == "dedicated" else ""))
    return bool(np.ptp(m) > 0)


def cross(q, ctx):
    if q["kind"] not in ("linear", "logistic"):
        q = dict(q, kind="linear")
        q["conf"] = dict(q["conf"], cost="t-NLC-2-2", l2_reg=0., fit_intercept=True)
        for k in ("k", "u", "eta", "alpha"):
            q["conf"].pop(k, None)
    X, y = data(q)
    X, y = np.concatenate([X, X + .25]), np.concatenate([y, y])
    sp = folds(q, X, y)
    if q["kind"] == "linear" and any(np.ptp(y[b]) < 1e-3 for _, b in sp):
        # the coefficient of determination needs different labels
        return False
    p = quiet(cross_val_predict, build(q), X, y, cv=sp)
    s = quiet(cross_val_score, build(q), X, y, cv=sp, error_score="raise")
    scaled = quiet(cross_val_predict, make_pipeline(StandardScaler(), build(q)), X, y, cv=sp)
    for j, (a, b) in enumerate(sp):
        f = fit(build(q), X[a], y[a])
        want = np.ravel(f.predict(X[b]))
        if q["kind"] == "linear" and (not np.isfinite(want).all() or np.abs(want).max() > 1e6):
            ctx.tag("diverged")
            return False
        mu, sd = X[a].mean(0), X[a].std(0)
        sd = np.where(sd > 1e-9, sd, 1.)
        h = fit(build(q), (X[a] - mu) / sd, y[a])
        want2 = np.ravel(h.predict((X[b] - mu) / sd))
        close(s[j], score(q, f, X[b], y[b]), f"score of fold {j}", rtol=1e-4, atol=1e-6)
        if q["kind"] == "linear":
            close(p[b], want, f"predictions on fold {j}", rtol=1e-5, atol=1e-6)
            if np.abs(want2).max() < 1e4:
                close(scaled[b], want2, f"predictions of the pipeline on fold {j}", rtol=1e-2, atol=1e-2 * (1 + np.abs(want2).max()))
        else:
            check(np.array_equal(p[b], want), f"labels predicted on fold {j}")
            check(set(np.unique(scaled[b])) <= set(np.unique(y[a])), f"labels of the pipeline on fold {j}")
    ctx.tag(q["kind"])
    return True


@st.composite
def searches(draw):
    q = draw(configs())
    q.update(rhos=draw(st.lists(st.sampled_from([0., 1e-3, 1e-2, .1, .5, 1., 3.]), min_size=2, max_size=3, unique=True)),
             folds=draw(st.sampled_from([2, 3, 3, 4, 6])), shuffle=draw(st.booleans()), dedicated=draw(st.booleans()))
    q["m"] = max(q["m"], 6)
    if q["dedicated"]:
        # several conic programs per fold
        q["m"], q["d"] = min(q["m"], 12), min(q["d"], 4)
    if q["kind"] == "newsvendor":
        # one product: how several columns are summarised is not documented
        q["d"] = 1
    return q


CASES = [Case("grid", searches(), grid, 40, 400), Case("cross", searches(), cross, 30, 300)]
