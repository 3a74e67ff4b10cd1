"""O05: dedicated newsvendor and portfolio decisions against independent optimisation."""
import math
import warnings

import numpy as np
from cvxpy.error import SolverError
from hypothesis import strategies as st
from scipy.optimize import linprog, minimize

from skwdro.operations_research import NewsVendor, Portfolio
from skwdro.solvers.specific_solvers import (
    SAANewsvendorSpecificSolver, SAANewsvendorSpecificSolver2, WDRONewsvendorSpecificSolver, WDROPortfolioSpecificSolver)

from harness.core import Case, must_raise, check, close, to_np
from harness.gen import SEED, arr, dims, fixed, logf, rng, sig

RULE = ("Generated demands and returns solved by the dedicated solvers and by an independent exact evaluation of the "
        "worst case; non-trivial when the optimal decision is not a trivial vertex (zero order, single asset).")
INF = float("inf")


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def scalar(x, what):
    v = to_np(x, what)
    check(v.size == 1, f"{what}: {v.size} values")
    return float(v.reshape(-1)[0])


# ---- newsvendor ---------------------------------------------------------

def demands(q):
    r = rng(q["seed"], 1)
    m = q["m"]
    z = {"uniform": lambda: r.random(m) * 10, "int": lambda: r.integers(0, 6, m).astype(float),
         "expo": lambda: r.exponential(3., m), "equal": lambda: np.full(m, r.integers(1, 9) * 1.),
         "zeros": lambda: r.random(m) * 5 * (r.random(m) < .6)}[q["zstyle"]]()
    return z * q["scale"]


def worst(theta, z, k, u, rho):
    """Worst expected cost over distributions on [0, inf) within distance rho.

    The cost is convex in the demand: the adversary moves mass to zero, cheapest
    demands first, each moved unit of mass costing z and gaining u*min(theta, z).
    """
    n = len(z)
    value = k * theta - u * np.mean(np.minimum(theta, z))
    gain, left = 0., n * rho
    for v in np.sort(z):
        if v <= 0.:
            continue
        t = min(1., left / v)
        gain += t * u * min(theta, v)
        left -= t * v
        if left <= 0.:
            break
    return value + gain / n


def best_order(z, k, u, rho):
    """Convex piecewise linear in theta: kinks at demands; refine between them."""
    grid = np.unique(np.concatenate([[0.], z, (z[:, None] + z[None, :]).ravel() / 2, [z.max() * 2 + 1]]))
    return min((worst(t, z, k, u, rho), t) for t in grid)


def newsvendor(q, ctx):
    z = demands(q)
    k, u, rho = q["k"], q["k"] + q["margin"], sig(q["rho"] * max(z.mean(), .1))
    k, u = float(k), float(u)
    X = z.reshape(-1, 1)
    X0 = X.copy()
    if q["direct"]:
        r = quiet(WDRONewsvendorSpecificSolver, k=k, u=u, rho=rho, samples=X)
        theta = scalar(r.coef, "order")
    else:
        e = quiet(NewsVendor(rho=rho, k=k, u=u, solver="dedicated").fit, X)
        theta = scalar(e.coef_, "order")
        lam = scalar(e.dual_var_, "multiplier")
        if abs(theta) > 1e-6 * (1 + z.max()):
            close(lam, u, "multiplier of a positive order", shape=False)
        elif theta == 0.:
            close(lam, 0., "multiplier when nothing is ordered", shape=False)
    scale = (abs(k) + abs(u)) * (1. + z.max())
    check(theta >= -1e-6 * (1 + z.max()), f"negative order {theta}")
    got = worst(max(theta, 0.), z, k, u, rho)
    want, arg = best_order(z, k, u, rho)
    check(got <= want + 1e-6 * scale, f"order {theta} costs {got} in the worst case, {arg} only {want}")
    check((X == X0).all(), "the solver modified the data")
    ctx.tag("orders" if arg > 0 else "nothing")
    return arg > 0 or best_order(z, k, u, 0.)[1] > 0


S_NV = fixed(seed=SEED, m=dims(1, 15, 80), zstyle=st.sampled_from(["uniform", "int", "expo", "equal", "zeros"]),
             scale=st.sampled_from([1., 1., .1, 30.]), k=st.sampled_from([.5, 1., 2., 5.]),
             margin=st.sampled_from([-.5, 0., .3, 1., 2., 10., 40.]),
             rho=st.one_of(st.just(0.), logf(1e-3, .5), logf(1e-2, 1.), logf(.1, 3.)), direct=st.booleans())


def saa(q, ctx):
    z = demands(q)
    k, u = float(q["k"]), float(q["k"] + q["margin"])
    X = z.reshape(-1, 1)
    want, arg = best_order(z, k, u, 0.)
    solver = SAANewsvendorSpecificSolver if q["first"] else SAANewsvendorSpecificSolver2
    try:
        r = quiet(solver, k=k, u=u, samples=X)
    except SolverError:
        ctx.tag("gave up")
        return False
    theta = scalar(r.coef, "order")
    tol = 1e-5 * (k + u) * (1. + z.max())
    check(theta >= -1e-5 * (1 + z.max()), f"negative order {theta}")
    got = worst(max(theta, 0.), z, k, u, 0.)
    check(got <= want + tol, f"order {theta} costs {got} on average, {arg} only {want}")
    if q["first"]:
        close(scalar(r.dual_var, "objective"), got, "reported objective", rtol=0., atol=tol, shape=False)
    return arg > 0


S_SAA = fixed(seed=SEED, m=dims(1, 15, 80), zstyle=st.sampled_from(["uniform", "int", "expo", "equal", "zeros"]),
              scale=st.sampled_from([1., .1, 30.]), k=st.sampled_from([.5, 1., 2., 5.]),
              margin=st.sampled_from([.3, 1., 2., 10., 40.]), first=st.booleans())


# ---- portfolio -----------------------------------------------------------

def pieces(eta, alpha):
    return (-1., -1. - eta / alpha), (eta, eta * (1. - 1. / alpha))


def dual_order(p):
    return INF if p == 1 else (1. if p == INF else p / (p - 1.))


def vnorm(v, q):
    a = np.abs(v)
    return a.max() if q == INF else (a ** q).sum() ** (1. / q)


def inner(theta, X, eta, alpha):
    """min over tau of the average worst piece: kinks at minus the returns."""
    r = X @ theta
    a, b = pieces(eta, alpha)

    def at(t):
        return np.mean(np.maximum(b[0] * t + a[0] * r, b[1] * t + a[1] * r))
    if eta == 0.:
        return at(0.)
    # alpha = 1: the infimum is the limit of tau to minus infinity
    lo = float(np.mean(a[1] * r)) if alpha == 1. else INF
    return min(lo, min(at(t) for t in -r))


def value(theta, X, eta, alpha, rho, p):
    return rho * (1. + eta / alpha) * vnorm(theta, dual_order(p)) + inner(theta, X, eta, alpha)


def returns(q):
    X = arr(q["seed"], 1, (q["m"], q["d"]), q["xstyle"])
    X = X + q["drift"] * arr(q["seed"], 2, (q["d"],))
    if q["alike"]:
        # every row with the assets exchanged in turn: the best portfolio is diversified
        X = np.vstack([np.roll(X[:3], j, axis=1) for j in range(q["d"])])
    return X


def improve(theta, f, q, X, eta, alpha, rho, p):
    """Look for a better point of the simplex from a solution (f is convex)."""
    d, n = X.shape[1], X.shape[0]
    r = rng(q["seed"], 5)
    cands = [np.eye(d)[i] for i in range(d)] + [np.full(d, 1. / d)] + [r.dirichlet(np.full(d, .7)) for _ in range(12)]
    for i in range(d):
        for j in range(d):
            t = min(.2, theta[i])
            v = theta.copy()
            v[i] -= t
            v[j] += t
            cands.append(v)
    best = min((f((1 - t) * theta + t * v), tuple((1 - t) * theta + t * v)) for v in cands for t in (.01, .1, .5, 1.))
    start = np.array(best[1])
    a, b = pieces(eta, alpha)
    qn = dual_order(p)
    # epigraph form: theta, tau, slack per point, bound on the norm (+ its split)
    if qn == 2.:
        c = np.concatenate([np.zeros(d + 1), np.full(n, 1. / n)])
        A = np.vstack([np.hstack([-a[k] * X, np.full((n, 1), -b[k]), np.eye(n)]) for k in range(2)])
        tau = 0.
        s = np.max([a[k] * (X @ start) + b[k] * tau for k in range(2)], 0)
        w = rho * (1. + eta / alpha)
        res = minimize(lambda v: (c @ v + w * np.linalg.norm(v[:d]),
                                  c + w * np.concatenate([v[:d] / np.linalg.norm(v[:d]), np.zeros(n + 1)])),
                       np.concatenate([start, [tau], s]), jac=True, method="SLSQP", bounds=[(0, 1)] * d + [(-50, 50)] + [(None, None)] * n,
                       options=dict(maxiter=150, ftol=1e-10),
                       constraints=[dict(type="ineq", fun=lambda v: A @ v, jac=lambda v: A),
                                    dict(type="eq", fun=lambda v: v[:d].sum() - 1, jac=lambda v: np.r_[np.ones(d), np.zeros(n + 1)])])
        v = np.clip(res.x[:d], 0, None)
        if np.isfinite(v).all() and v.sum() > .5:
            v = v / v.sum()
            best = min(best, (f(v), tuple(v)))
    return best


def lp_dual(X, C, dd, eta, alpha, rho, p):
    """Optimal value of the whole problem by linear programming (p = 1 or inf)."""
    n, d = X.shape
    L = C.shape[0]
    a, b = pieces(eta, alpha)
    # variables: theta(d), tau, lam, s(n), gamma(n*2*L), split(n*2*d) when the dual norm is the 1-norm
    one = p == INF
    ng = n * 2 * L
    N = d + 2 + n + ng + (n * 2 * d if one else 0)
    c = np.zeros(N)
    c[d + 1] = rho
    c[d + 2:d + 2 + n] = 1. / n
    A, h = [], []
    for i in range(n):
        for k in range(2):
            g0 = d + 2 + n + (i * 2 + k) * L
            row = np.zeros(N)
            row[:d] = a[k] * X[i]
            row[d] = b[k]
            row[d + 2 + i] = -1.
            row[g0:g0 + L] = dd - C @ X[i]
            A.append(row)
            h.append(0.)
            for j in range(d):
                base = np.zeros(N)
                base[g0:g0 + L] = C[:, j]
                base[j] -= a[k]
                for sg in (1., -1.):
                    row = sg * base
                    if one:
                        row[d + 2 + n + ng + (i * 2 + k) * d + j] -= 1.
                    else:
                        row[d + 1] -= 1.
                    A.append(row)
                    h.append(0.)
            if one:
                row = np.zeros(N)
                o = d + 2 + n + ng + (i * 2 + k) * d
                row[o:o + d] = 1.
                row[d + 1] = -1.
                A.append(row)
                h.append(0.)
    bounds = [(0, None)] * d + [(None, None), (0, None)] + [(None, None)] * n + [(0, None)] * ng + [(0, None)] * (N - d - 2 - n - ng)
    e = np.zeros((1, N))
    e[0, :d] = 1.
    r = linprog(c, A_ub=np.array(A), b_ub=np.array(h), A_eq=e, b_eq=[1.], bounds=bounds, method="highs")
    return r.fun if r.status == 0 else None


def lp_worst(theta, tau, X, C, dd, eta, alpha, rho, p):
    """Worst-case expectation at a decision, from the distributions' side (p = 1 or inf)."""
    n, d = X.shape
    a, b = pieces(eta, alpha)
    # variables per (i,k): mass, shift(d) ; per (i,k): size of the shift (1 or d entries)
    M = n * 2
    N = M + M * d + M * (d if p == 1 else 1)
    mi = lambda t: t
    sh = lambda t: slice(M + t * d, M + (t + 1) * d)
    sz = lambda t: slice(M + M * d + t * (d if p == 1 else 1), M + M * d + (t + 1) * (d if p == 1 else 1))
    c = np.zeros(N)
    A, h, E, g = [], [], [], []
    budget = np.zeros(N)
    for i in range(n):
        row = np.zeros(N)
        for k in range(2):
            t = i * 2 + k
            row[mi(t)] = 1.
            c[mi(t)] = -(b[k] * tau + a[k] * theta @ X[i]) / n
            c[sh(t)] = -a[k] * theta / n
            budget[sz(t)] = 1. / n
            for l in range(C.shape[0]):
                z = np.zeros(N)
                z[mi(t)] = C[l] @ X[i] - dd[l]
                z[sh(t)] = C[l]
                A.append(z)
                h.append(0.)
            for j in range(d):
                for sg in (1., -1.):
                    z = np.zeros(N)
                    z[M + t * d + j] = sg
                    z[sz(t).start + (j if p == 1 else 0)] = -1.
                    A.append(z)
                    h.append(0.)
        E.append(row)
        g.append(1.)
    A.append(budget)
    h.append(rho)
    bounds = [(0, None)] * M + [(None, None)] * (M * d) + [(0, None)] * (N - M - M * d)
    r = linprog(c, A_ub=np.array(A), b_ub=np.array(h), A_eq=np.array(E), b_eq=g, bounds=bounds, method="highs")
    return -r.fun if r.status == 0 else None


def portfolio(q, ctx):
    X = returns(q)
    n, d = X.shape
    eta, alpha, rho, p = q["eta"], q["alpha"], q["rho"], q["p"]
    code = f"t-NC-1-{'inf' if p == INF else format(p, 'g')}"
    C = D = None
    if q["support"]:
        r = rng(q["seed"], 3)
        C = {"any": r.standard_normal((q["rows"], d)), "floor": -np.eye(d), "box": np.vstack([-np.eye(d), np.eye(d)]), "positive": None}[q["shape"]]
        if q["shape"] == "positive":
            X, C = np.abs(X), -np.eye(d)
        D = np.zeros(len(C)) if q["shape"] == "positive" else (X @ C.T).max(0) + q["slack"] * r.exponential(1., len(C))
    X0 = X.copy()
    try:
        if q["direct"]:
            cc, dd = (np.zeros((1, d)), np.zeros((1, 1))) if C is None else (C, D)
            res = quiet(WDROPortfolioSpecificSolver, C=cc, d=dd, m=d, p=p, eta=eta, alpha=alpha, rho=rho, samples=X)
            theta, tau, lam, obj = res.coef, res.intercept, res.dual_var, res.robust_loss
        else:
            e = quiet(Portfolio(rho=rho, eta=eta, alpha=alpha, C=C, d=D, cost=code, solver="dedicated").fit, X)
            theta, tau, lam, obj = e.coef_, e.tau_, e.dual_var_, e.result_
    except SolverError:
        ctx.tag("gave up")
        return False
    theta = to_np(theta, "weights").reshape(-1)
    check(theta.shape == (d,), f"{theta.shape} weights for {d} assets")
    scale = (1. + np.abs(X).max()) * (1. + eta / alpha) * (1. + rho)
    check(theta.min() >= -1e-6 and abs(theta.sum() - 1) <= 1e-6, f"weights {theta} off the simplex")
    check(scalar(lam, "multiplier") >= -1e-6, "negative multiplier")
    obj = scalar(obj, "objective")
    tol = 1e-5 * scale
    th = np.clip(theta, 0, None)
    th = th / th.sum()
    if C is None:
        f = lambda v: value(v, X, eta, alpha, rho, p)
        close(obj, f(th), "reported objective against the objective of the weights", rtol=0., atol=tol, shape=False)
        best, arg = improve(th, f, q, X, eta, alpha, rho, p)
        check(f(th) <= best + tol, f"weights {th} have objective {f(th)}, {arg} only {best}")
    if p in (1, INF):
        cc, dd = (np.zeros((1, d)), np.zeros(1)) if C is None else (C, D)
        want = lp_dual(X, cc, dd, eta, alpha, rho, p)
        if want is not None:
            close(obj, want, "objective against linear programming", rtol=0., atol=tol, shape=False)
            ctx.tag("lp")
        if eta > 0:
            w = lp_worst(th, scalar(tau, "threshold"), X, cc if C is not None else np.zeros((0, d)),
                         dd, eta, alpha, rho, p)
            if w is not None:
                close(obj, w, "objective against the worst distribution at the returned decision", rtol=0., atol=tol,
                      shape=False)
                ctx.tag("worst case")
    check((X == X0).all(), "the solver modified the data")
    ctx.tag(f"p={p}")
    return d > 1 and theta.max() < .999


S_PF = fixed(seed=SEED, m=dims(1, 8, 25), d=st.sampled_from([1] + 4 * [2, 2, 3, 3, 4] + [7]), xstyle=st.sampled_from(["normal", "int", "sparse", "small"]),
             drift=st.sampled_from([0., .5]), alike=st.sampled_from([False, False, True]),
             eta=st.sampled_from([0., .2, 1., 5., 20.]), alpha=st.sampled_from([.05, .01, .3, .5, .95, 1.]),
             rho=st.one_of(logf(1e-3, 2.), logf(1e-2, .5), st.just(0.)), p=st.sampled_from([1., 2., INF, INF, 1.5, 3., 4.]),
             support=st.sampled_from([False, True, True]), rows=st.integers(1, 3), shape=st.sampled_from(["any", "floor", "floor", "box", "positive"]),
             slack=st.sampled_from([0., .02, .3, 1.]), direct=st.booleans())

def outside(q, ctx):
    """Support that excludes observed returns: no distribution there is close enough."""
    X = returns(q)
    n, d = X.shape
    p, rho = q["p"], q["rho"]
    c = rng(q["seed"], 3).standard_normal((1, d))
    size = np.abs(c).max() if p == 1 else np.abs(c).sum() if p > 2 else np.linalg.norm(c)
    D = (X @ c.T).min(0) - (2. * rho + .5) * size
    C = np.vstack([c] + [rng(q["seed"], 4).standard_normal((1, d))] * (q["rows"] - 1))
    D = np.concatenate([D] + [(X @ C[1:].T).max(0)[:q["rows"] - 1] + 1.])
    code = f"t-NC-1-{'inf' if p == INF else format(p, 'g')}"
    must_raise((ValueError, SolverError), lambda: quiet(
        Portfolio(rho=rho, eta=q["eta"], alpha=q["alpha"], C=C, d=D, cost=code, solver="dedicated").fit, X),
        f"portfolio with no distribution of the support within {rho}")
    bad = np.ones((1, d + 1))
    must_raise((ValueError,), lambda: quiet(Portfolio(rho=rho, C=bad, d=np.ones(1), cost=code, solver="dedicated").fit, X),
               "support constraints over another number of assets")
    return True


CASES = [
    Case("outside", S_PF, outside, 60, 600),
    Case("newsvendor", S_NV, newsvendor, 400, 5000),
    Case("saa", S_SAA, saa, 80, 1000),
    Case("portfolio", S_PF, portfolio, 400, 4000),
]
