"""Cheap fits of the estimators from generated parameters."""
import warnings

import numpy as np
import torch as pt
from hypothesis import strategies as st

from skwdro.linear_models import LinearRegression, LogisticRegression
from skwdro.operations_research import NewsVendor, Portfolio, Weber
from skwdro.solvers.optim_cond import OptCondTorch

from .gen import SEED, arr, dims, fixed, logf, rng

TORCH = ["entropic_torch", "entropic_torch_pre", "entropic_torch_post"]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def ran_away(q, v):
    """Training on fixed samples has no line search: long ones may run away."""
    return q["solver"] in ("entropic_torch", "entropic_torch_pre") and not np.isfinite(v).all()


def cast(X, dtype):
    """Arrays of the types users hand over, values kept representable."""
    if dtype == "f64":
        return X
    if dtype == "f32":
        return X.astype(np.float32)
    if dtype == "int":
        return np.round(2 * X).astype(np.int64)
    if dtype == "int8":
        return np.clip(np.round(2 * X), -100, 100).astype(np.int8)
    if dtype == "uint8":
        return np.clip(np.round(2 * X + 5), 0, 200).astype(np.uint8)
    if dtype == "bool":
        return X > 0
    if dtype == "list":
        return X.tolist()
    if dtype == "fortran":
        return np.asfortranarray(X)
    if dtype == "view":
        return np.repeat(X, 2, axis=0)[::2]
    raise AssertionError(dtype)


def num(X):
    return np.asarray(X, dtype=float)


DTYPES = st.sampled_from(["f64", "f64", "f64", "f32", "int", "int8", "uint8", "bool", "list", "fortran", "view"])

BUDGET = dict(n_iter=st.sampled_from(4 * [(1, 2), (3, 6), (0, 4), 5] + [(12, 30), 40]), rho=st.one_of(logf(1e-3, 1.), st.just(0.)),
              random_state=st.integers(0, 50), n_zeta=dims(1, 6, 70))


def steps(v):
    return tuple(v) if isinstance(v, (list, tuple)) else v


def linreg(q, **kw):
    a = dict(rho=q["rho"], solver=q["solver"], fit_intercept=q["intercept"], n_iter=steps(q["n_iter"]),
             random_state=q["random_state"], n_zeta_samples=q["n_zeta"])
    a.update(kw)
    return LinearRegression(**a)


def logreg(q, **kw):
    a = dict(rho=q["rho"], solver=q["solver"], fit_intercept=q["intercept"], n_iter=steps(q["n_iter"]),
             random_state=q["random_state"], n_zeta_samples=q["n_zeta"])
    a.update(kw)
    return LogisticRegression(**a)
