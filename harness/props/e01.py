"""E01: linear estimators against their reported coefficients and classes."""
import numpy as np
from cvxpy.error import SolverError
from hypothesis import strategies as st
from scipy.special import expit, softmax

from harness.core import Case, Violation, check, close, same, to_np
from harness.fits import BUDGET, DTYPES, TORCH, cast, linreg, logreg, num, quiet, ran_away
from harness.gen import SEED, arr, dims, fixed, rng

RULE = ("Generated data sets (array types, label types, class counts) fitted by every solver with small budgets, then "
        "predictions on new data; non-trivial when the coefficients are not all zero.")


def affine(X, coef, inter, k, what):
    """Scores (n, k) from reported coefficients."""
    X = num(X)
    c = to_np(coef, what + " coefficients")
    check(c.size == k * X.shape[1], f"{what}: {c.size} coefficients for {X.shape[1]} features and {k} outputs")
    s = X @ c.reshape(k, X.shape[1]).T
    if inter is not None:
        b = to_np(inter, what + " intercept")
        check(b.size in (1, k), f"{what}: intercept of size {b.size}")
        s = s + b.reshape(-1)
    return s


def tol(X, coef):
    return 2e-6 * (1. + np.abs(num(X)).max() * np.abs(to_np(coef, "coef")).sum())


def data(q, rows, key):
    """Training data, or (key 2) data to predict from, near the former or far away."""
    scale = q["zscale"] if key == 2 and q["dtype"] in ("f64", "f32", "list", "fortran", "view", "int") else 1.
    return cast(arr(q["seed"], key, (rows, q["d"]), q["xstyle"], scale), q["dtype"])


def twin(q, e, fit, X, ctx):
    """The type of the array does not matter, only its values."""
    if q["dtype"] != "f64" and q["solver"] != "dedicated":
        f = fit(num(X))
        close(f.coef_, e.coef_, f"coefficients on {q['dtype']} data against the same values as floats", rtol=1e-5, atol=1e-6)
        ctx.tag("twin")


def regressor(q, ctx):
    X, Z = data(q, q["m"], 1), data(q, q["rows"], 2)
    w = arr(q["seed"], 3, (q["d"],))
    y = num(X) @ w + 2. + .1 * arr(q["seed"], 4, (q["m"],))
    if q["ytype"] == "int":
        y = np.round(y).astype(int)
    elif q["ytype"] == "list":
        y = y.tolist()
    e = linreg(q)
    quiet(e.fit, X, y)
    coef = to_np(e.coef_, "coef_")
    if ran_away(q, coef):
        ctx.tag("diverged")
        return False
    check(np.isfinite(coef).all(), f"coefficients {coef}")
    if not q["intercept"]:
        check(e.intercept_ is None or abs(float(np.ravel(to_np(e.intercept_, "intercept_"))[0])) < 1e-6,
              f"intercept {e.intercept_} although disabled")
    got = to_np(quiet(e.predict, Z), "prediction")
    check(got.shape == (q["rows"],), f"predictions of shape {got.shape} for {q['rows']} rows")
    want = affine(Z, e.coef_, e.intercept_, 1, "regressor")[:, 0]
    t = tol(Z, coef) + 1e-6 * np.abs(want).max()
    close(got, want, "prediction", rtol=0., atol=t)
    twin(q, e, lambda A: quiet(linreg(q).fit, A, y), X, ctx)
    # one row at a time
    i = q["seed"] % q["rows"]
    row = Z[i:i + 1]
    close(to_np(quiet(e.predict, row), "prediction"), want[i:i + 1], "prediction of one row", rtol=0., atol=t)
    ctx.tag(q["solver"])
    ctx.tag(q["dtype"])
    return bool(np.abs(coef).max() > 1e-9)


SHAPE = dict(seed=SEED, m=dims(4, 20, 150), d=dims(1, 5, 25), rows=dims(1, 12, 400), zscale=st.sampled_from([1., 1., 1., 1e-3, 100., 1e5]), xstyle=st.sampled_from(["normal", "int", "sparse", "offset"]),
             dtype=DTYPES, solver=st.sampled_from(TORCH + ["dedicated"]), intercept=st.booleans(), **BUDGET)
S_REG = fixed(ytype=st.sampled_from(["float", "float", "int", "list"]), **SHAPE)


LABELS = {
    "int": [3, 7, 8, 20, 21, 100, 101], "signed": [-1, 1, 2, 5, 6, 7, 8], "zero": list(range(7)), "neg": [-9, -4, -2, 0, 2, 5, 9],
    "float": [], "half": [], "str": ["apple", "pear", "plum", "quince", "sloe", "vine", "yam"],
    "digits": ["1", "10", "2", "3", "30", "4", "5"], "obj": list("abcdefg"), "bool": [], "case": ["B", "a", "b", "c", "d", "e", "f"],
    "long": [f"a label of considerable length, number {i}, and then some more" for i in range(7)], "large": [10 ** 12 + i for i in range(7)],
}


def labels_of(kind, idx, k):
    names = LABELS[kind]
    if kind == "bool":
        return np.array([bool(i) for i in idx])
    if kind == "float" or kind == "half":
        # only integral floats are accepted as class labels
        names = [float(i) for i in range(-1, 6)] if kind == "float" else [2. * i for i in range(7)]
    v = [names[i] for i in idx]
    return np.array(v, dtype=object) if kind == "obj" else np.array(v)


def classes(q, rows, key, sep=0.):
    r = rng(q["seed"], key)
    idx = r.integers(0, q["k"], rows)
    idx[:q["k"]] = r.permutation(q["k"])
    return idx


def kinds_of(k):
    return [n for n in LABELS if k == 2 or n != "bool"]


def expected_proba(e, Z, k):
    if k == 2:
        p = expit(affine(Z, e.coef_, e.intercept_, 1, "classifier")[:, 0])
        return np.stack([1 - p, p], 1)
    return softmax(affine(Z, e.coef_, e.intercept_, k, "classifier"), axis=1)


def fit(q, kind, X, idx, **kw):
    e = logreg(q, **kw)
    return quiet(e.fit, X, labels_of(kind, idx, q["k"]))


def predictions(e, Z, names, what):
    raw = quiet(e.predict, Z)
    check(getattr(raw, "shape", None) == (len(Z),), f"{what}: predictions of shape {getattr(raw, 'shape', None)} for {len(Z)} rows")
    kind = np.asarray(names).dtype.kind if not any(isinstance(n, str) for n in names) else raw.dtype.kind
    check(raw.dtype.kind == kind, f"{what}: labels of type {raw.dtype} for classes {names}")
    out = []
    for v in raw.tolist():
        hits = [i for i, n in enumerate(names) if n == v and isinstance(v, str) == isinstance(n, str)]
        check(len(hits) == 1, f"{what}: predicted {v!r}, which is not among {names}")
        out.append(hits[0])
    return np.array(out)


def classifier(q, ctx):
    k = q["k"]
    if k > 2 and q["solver"] == "dedicated":
        q = dict(q, solver="entropic_torch")
    q = dict(q, m=max(q["m"], k))
    ka, kb = (kinds_of(k)[q["kind"] % len(kinds_of(k))], kinds_of(k)[q["other"] % len(kinds_of(k))])
    X, Z = data(q, q["m"], 1), data(q, q["rows"], 2)
    idx = classes(q, q["m"], 3)
    try:
        e = fit(q, ka, X, idx)
        f = fit(q, kb, X, idx)
    except SolverError:
        ctx.tag("gave up")
        return False
    na = labels_of(ka, range(k), k).tolist()
    nb = labels_of(kb, range(k), k).tolist()
    check(list(np.asarray(e.classes_).tolist()) == na, f"classes_ {e.classes_} for labels {na}")
    coef = to_np(e.coef_, "coef_")
    if ran_away(q, coef):
        ctx.tag("diverged")
        return False
    check(np.isfinite(coef).all(), f"coefficients {coef}")
    P = to_np(quiet(e.predict_proba, Z), "probabilities")
    check(P.shape == (q["rows"], k), f"probabilities of shape {P.shape}, {q['rows']} rows and {k} classes")
    want = expected_proba(e, Z, k)
    # rounding of the scores hardly shows where they are large
    off = np.abs(P - want) - 4 * tol(Z, coef) * want * (1 - want)
    check(bool((off <= 3e-7).all()), f"probabilities against the reported coefficients: off by {np.abs(P - want).max():.3g}")
    close(P.sum(1), np.ones(q["rows"]), "sum of a row of probabilities", rtol=0., atol=1e-5)
    check(P.min() >= 0. and P.max() <= 1 + 1e-6, "probabilities outside [0, 1]")
    if k == 2 and hasattr(e, "predict_proba_2Class"):
        close(to_np(quiet(e.predict_proba_2Class, Z), "probability"), P[:, 1], "probability of the second class alone", rtol=0., atol=1e-6)
    L = predictions(e, Z, na, "prediction")
    best = P.max(1)
    check(bool((P[np.arange(len(L)), L] >= best - 1e-6).all()), "a predicted label is not the most probable one")
    twin(q, e, lambda A: fit(q, ka, A, idx), X, ctx)
    # renaming
    same(to_np(f.coef_, "coef_"), coef, f"coefficients after renaming {ka} labels to {kb}")
    same(to_np(quiet(f.predict_proba, Z), "p"), P, f"probabilities after renaming {ka} labels to {kb}")
    same(predictions(f, Z, nb, "renamed prediction"), L, f"predictions after renaming {ka} labels to {kb}")
    if not q["intercept"]:
        check(e.intercept_ is None or not np.any(to_np(e.intercept_, "intercept_")), "intercept although disabled")
    ctx.tag(q["solver"])
    ctx.tag(f"{k} classes")
    ctx.tag(ka)
    return bool(np.abs(coef).max() > 1e-9)


S_CLS = fixed(k=st.sampled_from([2, 2, 2, 2, 3, 3, 4, 4, 7]), kind=st.integers(0, 100), other=st.integers(0, 100), **SHAPE)


def learns(q, ctx):
    """Well separated classes, and exact linear relations, are recovered."""
    k = q["k"]
    if k > 2 and q["solver"] == "dedicated":
        q = dict(q, solver="entropic_torch")
    if q["dtype"] == "uint8":
        q = dict(q, unbalanced=False)
    r = rng(q["seed"], 1)
    m, d = 10 * k, max(q["d"], 2)
    q = dict(q, rho=1e-3, n_zeta=5, n_iter=(60, 90), m=m, intercept=True)
    ang = 2 * np.pi * (np.arange(k) / k + r.random())
    cen = np.zeros((k, d))
    cen[:, 0], cen[:, 1] = 4 * np.cos(ang), 4 * np.sin(ang)
    idx = np.concatenate([np.full(m - 4 * (k - 1), 0)] + [np.full(4, c) for c in range(1, k)]) if q["unbalanced"] \
        else np.arange(m) % k
    idx = r.permutation(idx)
    X = cen[idx] + .3 * r.standard_normal((m, d))
    if q["dtype"] == "uint8":
        # one feature per class
        X = np.eye(k)[idx] if k > 2 or d < 3 else np.hstack([np.eye(k)[idx], r.random((m, d - k)) < .5])
        X = X.astype(q["dtype"]) * np.uint8(4)
        d = X.shape[1]
    kind = kinds_of(k)[q["kind"] % len(kinds_of(k))]
    # a plain step size: the adaptive ones need long warm-ups
    e = fit(q, kind, X, idx, learning_rate=.1)
    names = labels_of(kind, range(k), k).tolist()
    L = predictions(e, X, names, "prediction")
    acc = float((L == idx).mean())
    check(acc >= .8, f"only {acc:.2f} of well separated training labels recovered by {q['solver']}")
    ctx.tag(q["solver"])
    ctx.tag(q["dtype"])
    if q["solver"] not in ("dedicated", "entropic_torch_pre"):
        return True
    y = num(X) @ arr(q["seed"], 5, (d,)) + 1.
    g = linreg(q)
    quiet(g.fit, X, y)
    err = np.abs(to_np(quiet(g.predict, X), "prediction") - y).max() / (np.abs(y - y.mean()).max())
    check(err < .25, f"exact linear relation missed by {err:.3f} of its range with {q['solver']}")
    return True


S_LEARN = fixed(dtype=st.sampled_from(["f64", "f64", "uint8"]), seed=SEED, k=st.sampled_from([2, 2, 3]), d=st.integers(2, 3), kind=st.integers(0, 100), unbalanced=st.booleans(),
                solver=st.sampled_from(TORCH + ["dedicated"]), random_state=st.integers(0, 50))

CASES = [
    Case("regressor", S_REG, regressor, 250, 4000),
    Case("classifier", S_CLS, classifier, 250, 4000),
    Case("learns", S_LEARN, learns, 24, 160),
]
