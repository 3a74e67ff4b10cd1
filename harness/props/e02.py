"""E02: evaluation and scores of the operations-research estimators."""
import numpy as np
from cvxpy.error import SolverError
from hypothesis import strategies as st

from skwdro.operations_research import NewsVendor, Portfolio, Weber

from harness.core import Case, check, close, to_np
from harness.fits import BUDGET, TORCH, cast, num, quiet, steps, ran_away
from harness.gen import SEED, arr, dims, fixed, logf, rng

RULE = ("Estimators fitted by every solver on generated samples with small budgets, then evaluated on other samples; "
        "non-trivial when the evaluation sample has at least two distinct rows.")


def evaluate(e, *a):
    """(evaluation, score) as floats."""
    v, s = to_np(quiet(e.eval, *a), "evaluation"), to_np(quiet(e.score, *a), "score")
    check(v.size == 1 and s.size == 1, f"evaluation of shape {v.shape}, score of shape {s.shape}")
    v, s = float(v.reshape(-1)[0]), float(s.reshape(-1)[0])
    close(s, -v, "score against minus the evaluation", rtol=1e-6, atol=1e-9)
    return v


def common(q, e):
    check(e is not None, "fit returns nothing")
    return dict(rho=q["rho"], solver=q["solver"], n_iter=steps(q["n_iter"]), random_state=q["random_state"],
                n_zeta_samples=q["n_zeta"])


def demands(q, rows, key):
    r = rng(q["seed"], key)
    z = {"uniform": r.random((rows, q["d"])) * 6, "int": r.integers(0, 6, (rows, q["d"])) * 1.,
         "expo": r.exponential(3., (rows, q["d"]))}[q["zstyle"]]
    return z


def pick(z, dtype):
    return {"int": lambda: np.round(z).astype(int), "f32": lambda: z.astype(np.float32), "list": lambda: z.tolist(),
            "f64": lambda: z, "uint8": lambda: np.round(z).astype(np.uint8)}[dtype]()


def newsvendor(q, ctx):
    X, Z = demands(q, q["m"], 1), demands(q, q["rows"], 2)
    if q["signed"] and q["dtype"] != "uint8":
        Z = Z - 3.      # returned goods
    X, Z = pick(X, q["dtype"]), pick(Z, q["dtype"])
    k, u = q["k"], q["k"] + q["margin"]
    e = NewsVendor(k=k, u=u, **common(q, 1))
    try:
        quiet(e.fit, X)
    except SolverError:
        ctx.tag("gave up")
        return False
    th = to_np(e.coef_, "decision")
    check(th.size == 1, f"order quantity of size {th.size}")
    th = float(th.reshape(-1)[0])
    if ran_away(q, th):
        ctx.tag("diverged")
        return False
    check(np.isfinite(th) and (th >= -1e-6 or q["solver"] != "dedicated"), f"order quantity {th} for nonnegative demands")
    if abs(th) > 1e6:
        ctx.tag("diverged")
        return False
    z = num(Z)
    want = np.mean(k * th - u * np.minimum(th, z))
    close(evaluate(e, Z), want, "newsvendor evaluation", rtol=0., atol=2e-5 * (k + u) * (1. + np.abs(z).max() + abs(th)))
    # on the training sample as well
    x = num(X)
    close(evaluate(e, X), np.mean(k * th - u * np.minimum(th, x)), "newsvendor evaluation of the training sample", rtol=0.,
          atol=2e-5 * (k + u) * (1. + x.max() + abs(th)))
    ctx.tag(q["solver"])
    return q["rows"] > 1


S_NV = fixed(signed=st.booleans(), seed=SEED, m=dims(1, 12, 100), rows=dims(1, 9, 150), d=st.sampled_from([1, 1, 1, 2]), zstyle=st.sampled_from(["uniform", "int", "expo"]),
             dtype=st.sampled_from(["f64", "f64", "f32", "int", "list", "uint8"]), k=st.sampled_from([.5, 1., 5., 5]),
             margin=st.sampled_from([.5, 2., 2, 10., 90.]), solver=st.sampled_from(TORCH + ["dedicated"]), **BUDGET)


def portfolio(q, ctx):
    X = arr(q["seed"], 1, (q["m"], q["d"]), q["xstyle"])
    Z = arr(q["seed"], 2, (q["rows"], q["d"]), q["xstyle"])
    X, Z = cast(X, q["dtype"]), cast(Z, q["dtype"])
    eta, alpha = q["eta"], q["alpha"]
    e = Portfolio(eta=eta, alpha=alpha, cost=q["cost"], **common(q, 1))
    try:
        quiet(e.fit, X)
    except SolverError:
        ctx.tag("gave up")
        return False
    w = to_np(e.coef_, "weights").reshape(-1)
    check(w.shape == (q["d"],), f"{w.size} weights for {q['d']} assets")
    if ran_away(q, w):
        ctx.tag("diverged")
        return False
    check(w.min() >= -1e-6 and abs(w.sum() - 1.) < 1e-5, f"weights {w} off the simplex")
    c, tau = 64., 0.
    if eta > 0.:
        # a portfolio of equal, large gains only shows the threshold
        while c < 1e5:
            tau, far = [(evaluate(e, np.full((1, q["d"]), v)) + v) / eta for v in (c, 8 * c)]
            if abs(tau) < c / 2 and abs(tau - far) < 1e-3 * c:
                break
            c *= 8.
        else:
            ctx.tag("diverged")
            return False
        scale = c * (1. + eta + eta / alpha)
        down = evaluate(e, np.full((1, q["d"]), -c))
        close(down, c + eta * (tau + (c - tau) / alpha), "evaluation of a sure loss", rtol=0., atol=2e-6 * scale * (1 + 1 / eta))
    scale = (1. + np.abs(num(Z)).max() + c) * (1. + eta + eta / alpha)
    r = num(Z) @ w
    want = np.mean(-r + eta * (tau + np.maximum(-r - tau, 0.) / alpha))
    close(evaluate(e, Z), want, "portfolio evaluation", rtol=0., atol=4e-6 * scale * (1. + (1. + 1. / alpha) * (eta > 0)))
    ctx.tag(q["solver"])
    ctx.tag("risk" if eta else "no risk")
    return q["rows"] > 1


S_PF = fixed(seed=SEED, m=dims(2, 9, 60), d=dims(1, 4, 12), rows=dims(1, 8, 150), xstyle=st.sampled_from(["normal", "int", "sparse"]),
             dtype=st.sampled_from(["f64", "f64", "f32", "int", "list", "fortran"]), eta=st.sampled_from([0., .5, 2., 25.]),
             alpha=st.sampled_from([.1, .5, .95, 1., .02]), cost=st.sampled_from(["t-NC-1-1", "t-NC-1-2"]),
             solver=st.sampled_from(TORCH + ["dedicated"]), **BUDGET)


def weber(q, ctx):
    X = cast(arr(q["seed"], 1, (q["m"], q["d"]), q["xstyle"]), q["dtype"])
    Z = cast(arr(q["seed"], 2, (q["rows"], q["d"]), q["xstyle"]), q["dtype"])
    y, v = rng(q["seed"], 3).random(q["m"]) * 3, rng(q["seed"], 4).random(q["rows"]) * 3
    if q["signed"]:
        v = v - 1.5
    if q["ytype"] == "int":
        y, v = np.round(y).astype(int), np.round(v).astype(int)
    e = Weber(**common(q, 1))
    quiet(e.fit, X, y)
    pos = to_np(e.coef_, "location").reshape(-1)
    check(pos.shape == (q["d"],), f"location of size {pos.size} in dimension {q['d']}")
    if not np.abs(pos).max() < 1e6:
        # a few steps without line search may run away
        ctx.tag("diverged")
        return False
    want = np.mean(v * np.sqrt(((num(Z) - pos) ** 2).sum(1)))
    close(evaluate(e, Z, v), want, "Weber evaluation", rtol=0., atol=1e-5 * 3 * (1. + np.abs(num(Z)).max() + np.abs(pos).max()))
    ctx.tag(q["solver"])
    return q["rows"] > 1


S_WB = fixed(seed=SEED, m=dims(2, 9, 60), d=dims(1, 4, 12), rows=dims(1, 8, 150), xstyle=st.sampled_from(["normal", "int", "offset"]),
             dtype=st.sampled_from(["f64", "f64", "f32", "int", "list"]), ytype=st.sampled_from(["float", "int"]), signed=st.booleans(),
             solver=st.sampled_from(TORCH), **BUDGET)

CASES = [
    Case("newsvendor", S_NV, newsvendor, 150, 2500),
    Case("portfolio", S_PF, portfolio, 150, 2500),
    Case("weber", S_WB, weber, 100, 1500),
]
