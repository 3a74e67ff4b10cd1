"""O04: dedicated regression and classification solvers against independent optimisers."""
import warnings

import numpy as np
from cvxpy.error import SolverError
from hypothesis import strategies as st
from scipy.optimize import minimize, minimize_scalar

from skwdro.linear_models import LinearRegression, LogisticRegression
from skwdro.solvers.specific_solvers import WDROLinRegSpecificSolver, WDROLogisticSpecificSolver

from harness.core import Case, Violation, check, close, to_np
from harness.gen import SEED, arr, dims, fixed, logf, rng

RULE = ("Generated regression/classification samples solved by the dedicated solvers and by an independent method; "
        "non-trivial when the optimal coefficients are not zero.")


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ---- linear regression -------------------------------------------------

def regression_data(q):
    X = arr(q["seed"], 1, (q["m"], q["d"]), q["xstyle"]) * q["xscale"]
    w = arr(q["seed"], 2, (q["d"],))
    y = X @ w + q["offset"] + q["noise"] * arr(q["seed"], 3, (q["m"],))
    if q["twin"] and q["d"] > 1:
        X[:, -1] = X[:, 0]
    return X, y


def rmse_objective(X, y, rho, beta, b):
    return np.sqrt(np.mean((X @ beta + b - y) ** 2)) + rho * np.linalg.norm(beta)


def best_regression(X, y, rho, intercept):
    """The minimiser lies on the ridge path: search that path."""
    xm, ym = (X.mean(0), y.mean()) if intercept else (np.zeros(X.shape[1]), 0.)
    U, s, Vt = np.linalg.svd(X - xm, full_matrices=False)
    keep = s > 1e-12 * max(s.max(), 1e-300)
    c = U.T @ (y - ym)

    def at(t):
        f = np.zeros_like(s)
        f[keep] = s[keep] / (s[keep] ** 2 + t)
        beta = Vt.T @ (f * c)
        return rmse_objective(X, y, rho, beta, ym - xm @ beta), beta, ym - xm @ beta
    cands = [at(0.), (rmse_objective(X, y, rho, np.zeros(X.shape[1]), ym), np.zeros(X.shape[1]), ym)]
    grid = np.linspace(-30, 30, 241)
    vals = [at(np.exp(g))[0] for g in grid]
    i = int(np.argmin(vals))
    r = minimize_scalar(lambda g: at(np.exp(g))[0], bounds=(grid[max(i - 1, 0)], grid[min(i + 1, 240)]), method="bounded",
                        options=dict(xatol=1e-10))
    cands.append(at(np.exp(r.x)))
    return min(cands, key=lambda v: v[0])


def regression(q, ctx):
    q = dict(q, rho=q["rho"] * q["xscale"])     # large features call for large radii
    X, y = regression_data(q)
    X0, y0 = X.copy(), y.copy()
    if q["direct"]:
        r = quiet(WDROLinRegSpecificSolver, rho=q["rho"], X=X, y=y, fit_intercept=q["intercept"])
        coef, inter = r.coef, r.intercept
    else:
        e = quiet(LinearRegression(rho=q["rho"], solver="dedicated", fit_intercept=q["intercept"]).fit, X, y)
        coef, inter = e.coef_, e.intercept_
    beta = to_np(coef, "coefficients").reshape(-1)
    check(beta.shape == (q["d"],), f"{beta.shape} coefficients for {q['d']} features")
    b = 0. if inter is None else float(to_np(inter, "intercept").reshape(-1)[0])
    if not q["intercept"]:
        check(abs(b) <= 1e-7 * (1 + np.abs(y).max()), f"intercept {b} although none is fitted")
    got = rmse_objective(X, y, q["rho"], beta, b)
    want, bw, _ = best_regression(X, y, q["rho"], q["intercept"])
    tol = 1e-5 * (1 + np.abs(y).max()) + 1e-6 * np.linalg.norm(bw)
    check(np.isfinite(got) and got <= want + tol, f"objective {got} at the solution, {want} is attained elsewhere")
    check((X == X0).all() and (y == y0).all(), "the solver modified the data")
    ctx.tag("intercept" if q["intercept"] else "no intercept")
    ctx.tag("interpolates" if want < 1e-6 else "residuals")
    return np.linalg.norm(bw) > 1e-6


S_REG = fixed(seed=SEED, xscale=st.sampled_from([1., 1., 1., 20., 80., .05]), m=dims(2, 20, 200), d=dims(1, 6, 30), xstyle=st.sampled_from(["normal", "int", "offset", "sparse"]),
              rho=st.one_of(logf(1e-4, 3.), logf(1e-3, .5), st.just(0.)), offset=st.sampled_from([0., 1., -20.]),
              noise=st.sampled_from([0., .1, 1., 5.]), intercept=st.booleans(), direct=st.booleans(), twin=st.booleans())


# ---- logistic regression -----------------------------------------------

def softplus(v):
    return np.logaddexp(0., v)


def class_objective(X, y, rho, kappa, beta, b, lam):
    s = y * (X @ beta + b)
    return rho * lam + np.mean(np.maximum(softplus(-s), softplus(s) - kappa * lam))


def best_lam(X, y, rho, kappa, beta, b):
    """Best feasible multiplier: convex and piecewise linear on [|beta|, inf)."""
    s = y * (X @ beta + b)
    lo = np.linalg.norm(beta)
    cands = np.concatenate([[lo], (softplus(s) - softplus(-s)) / kappa])
    vals = [class_objective(X, y, rho, kappa, beta, b, l) for l in cands[cands >= lo]]
    return min(vals)


def best_class(q, X, y, beta0, b0):
    rho, kappa, d, n = q["rho"], kappa_of(q), X.shape[1], len(y)

    def f(v):
        b = v[d] if q["intercept"] else 0.
        return best_lam(X, y, rho, kappa, v[:d], b)

    def smooth(v):
        """Value and gradient where only true labels matter (|x| << kappa)."""
        beta, b = v[:d], (v[d] if q["intercept"] else 0.)
        s = y * (X @ beta + b)
        n = np.sqrt(beta @ beta + 1e-18)
        w = -y / (1 + np.exp(np.clip(s, -500, 500))) / len(y)
        g = np.concatenate([X.T @ w + rho * beta / n, [w.sum() if q["intercept"] else 0.]])
        return rho * n + np.mean(softplus(-s)), g
    best, arg = np.inf, None
    starts = [np.zeros(d + 1), np.concatenate([beta0, [b0]])] + [rng(q["seed"], 9, i).standard_normal(d + 1) for i in range(2)]
    p = np.clip(np.mean(y > 0), 1e-9, 1 - 1e-9)
    starts[0][d] = np.log(p / (1 - p))
    for v in starts:
        if f(v) < best:
            best, arg = f(v), v
        v = minimize(smooth, v, jac=True, method="L-BFGS-B", options=dict(maxiter=500)).x
        if f(v) < best:
            best, arg = f(v), v
    if kappa < 100.:
        # flipped labels matter: follow the epigraph form from the best point
        Z = y[:, None] * np.hstack([X, np.full((n, 1), 1. if q["intercept"] else 0.)])
        I, O = np.eye(n), np.zeros((n, 1))

        def cons(u):
            s = Z @ u[:d + 1]
            return np.concatenate([u[d + 2:] - softplus(-s), u[d + 2:] - softplus(s) + kappa * u[d + 1],
                                   [u[d + 1] - np.sqrt(u[:d] @ u[:d] + 1e-18)]])

        def jac(u):
            s = np.clip(Z @ u[:d + 1], -500, 500)
            g = np.concatenate([-u[:d] / np.sqrt(u[:d] @ u[:d] + 1e-18), [0., 1.], np.zeros(n)])
            return np.vstack([np.hstack([Z / (1 + np.exp(s))[:, None], O, I]),
                              np.hstack([-Z / (1 + np.exp(-s))[:, None], O + kappa, I]), g])
        c = np.concatenate([np.zeros(d + 1), [rho], np.full(n, 1. / n)])
        for v in [arg, starts[2]]:
            s = Z @ v
            l = np.linalg.norm(v[:d]) + .1
            u = np.concatenate([v, [l], np.maximum(softplus(-s), softplus(s) - kappa * l)])
            r = minimize(lambda u: (c @ u, c), u, jac=True, method="SLSQP", options=dict(maxiter=200, ftol=1e-9),
                         constraints=[dict(type="ineq", fun=cons, jac=jac)])
            v = r.x[:d + 1]
            if np.isfinite(v).all() and f(v) < best:
                best, arg = f(v), v
    return best, arg


def kappa_of(q):
    return q["kappa"] if q["direct"] else 1000.


def classification(q, ctx):
    try:
        return classify(q, ctx)
    except SolverError:
        # the numerical solver may give up, and says so
        ctx.tag("gave up")
        return False


def classify(q, ctx):
    X = arr(q["seed"], 1, (q["m"], q["d"]), q["xstyle"])
    w = arr(q["seed"], 2, (q["d"],))
    s = X @ w + q["noise"] * arr(q["seed"], 3, (q["m"],))
    y = np.where(s > (np.median(s) if q["m"] > 1 else 0), 1., -1.)
    y[0], y[1] = 1., -1.
    X0 = X.copy()
    if q["direct"]:
        r = quiet(WDROLogisticSpecificSolver, rho=q["rho"], kappa=q["kappa"], X=X, y=y, fit_intercept=q["intercept"])
        coef, inter, lam, obj = r.coef, r.intercept, r.dual_var, r.robust_loss
    else:
        e = quiet(LogisticRegression(rho=q["rho"], solver="dedicated", fit_intercept=q["intercept"]).fit, X, y)
        coef, inter, lam, obj = e.coef_, e.intercept_, e.dual_var_, e.result_
    beta = to_np(coef, "coefficients").reshape(-1)
    check(beta.shape == (q["d"],), f"{beta.shape} coefficients for {q['d']} features")
    b = 0. if inter is None else float(to_np(inter, "intercept").reshape(-1)[0])
    lam = float(to_np(lam, "multiplier").reshape(-1)[0])
    if not q["intercept"]:
        check(abs(b) <= 1e-7, f"intercept {b} although none is fitted")
    tol = TOL * (1. + np.abs(X).max())
    check(np.linalg.norm(beta) <= lam + tol, f"coefficients of norm {np.linalg.norm(beta)} for a multiplier {lam}")
    got = class_objective(X, y, q["rho"], kappa_of(q), beta, b, max(lam, np.linalg.norm(beta)))
    want, arg = best_class(q, X, y, beta, b)
    check(np.isfinite(got) and got <= want + tol, f"objective {got} at the solution, {want} is attained elsewhere")
    close(obj, got, "reported objective", rtol=0., atol=tol, shape=False)
    check((X == X0).all(), "the solver modified the data")
    ctx.tag("intercept" if q["intercept"] else "no intercept")
    ctx.tag(f"kappa {kappa_of(q)}")
    return np.linalg.norm(arg[:q["d"]]) > 1e-3


TOL = 2e-3
S_CLASS = fixed(seed=SEED, m=dims(2, 16, 60), d=dims(1, 4, 10), xstyle=st.sampled_from(["normal", "int", "sparse"]),
                rho=logf(1e-2, 2.), noise=st.sampled_from([.1, 1., 3.]), intercept=st.booleans(), direct=st.booleans(), kappa=st.sampled_from([.05, .3, 1., 1000.]))

CASES = [
    Case("regression", S_REG, regression, 250, 2500),
    Case("classification", S_CLASS, classification, 100, 900),
]
