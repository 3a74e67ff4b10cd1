"""E04: entropic estimators against the generic robustification interface."""
import numpy as np
import torch as pt
import torch.nn as nn
from hypothesis import strategies as st

from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
from skwdro.linear_models import LinearRegression, LogisticRegression
from skwdro.operations_research import NewsVendor, Portfolio, Weber
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.torch import robustify

from harness.core import Case, check, close, to_np
from harness.fits import TORCH, quiet, steps
from harness.gen import SEED, arr, dims, logf, rng

RULE = ("Estimators with every parameter generated, fitted by the entropic solvers and compared with the same model "
        "written by hand and solved through the generic interface; non-trivial when training moved the coefficients.")

CLS = {"linear": LinearRegression, "logistic": LogisticRegression, "newsvendor": NewsVendor, "portfolio": Portfolio, "weber": Weber}
COSTS = {"linear": ["t-NLC-2-2", "t-NLC-2-2-4", "t-NLC-1-1-4", "t-NLC-1-2-4", "t-NC-2-2"],
         "logistic": ["t-NLC-2-2", "t-NLC-2-2-4", "t-NC-2-2", "t-NC-1-2"],
         "newsvendor": ["t-NC-1-2", "t-NC-2-2", "t-NC-1-1"], "portfolio": ["t-NC-1-1", "t-NC-2-2", "t-NC-1-2"],
         "weber": ["t-NLC-2-2", "t-NLC-2-2-4", "t-NC-2-2"]}


class Margin(nn.Module):
    reduction = "none"

    def forward(self, s, y):
        return -nn.functional.logsigmoid(y.reshape(s.shape) * s)


class Vendor(nn.Module):
    reduction = "none"

    def __init__(self, k, u):
        super().__init__()
        self.k, self.u = k, u
        self.c = nn.Parameter(pt.rand(1))

    def forward(self, x):
        return (self.k * self.c - self.u * pt.minimum(self.c, x)).mean(-1, keepdim=True)


class MeanRisk(nn.Module):
    reduction = "none"

    def __init__(self, d, eta, alpha):
        super().__init__()
        self.t = nn.Parameter(pt.tensor(0.))
        self.w = nn.Linear(d, 1, bias=False)
        self.eta, self.alpha = eta, alpha

    def weights(self):
        return pt.softmax(self.w.weight, -1)

    def forward(self, x):
        r = x @ self.weights().T
        return -r + self.eta * (self.t + pt.relu(-r - self.t) / self.alpha)


class Place(nn.Module):
    reduction = "none"

    def __init__(self, d):
        super().__init__()
        self.pos = nn.Parameter(pt.zeros(d))

    def forward(self, x, w):
        return w * pt.linalg.norm(x - self.pos, dim=-1, keepdim=True)


@st.composite
def configs(draw):
    kind = draw(st.sampled_from(list(CLS)))
    c = dict(rho=draw(st.one_of(logf(1e-2, 2.), logf(1., 20.), logf(1e-9, 1e-3), st.just(0.))), solver=draw(st.sampled_from(TORCH)), cost=draw(st.sampled_from(COSTS[kind])),
             n_zeta_samples=draw(dims(1, 6, 60)), random_state=draw(st.one_of(st.integers(0, 50), st.sampled_from([1234, 2 ** 31, 2 ** 40 + 3]))), learning_rate=draw(st.sampled_from([None, None, .02, .2, .8, 0.])),
             n_iter=draw(st.sampled_from([[1, 2], [3, 5], [0, 4], 6])))
    reg = st.one_of(st.none(), logf(1e-2, 2.)) if kind in ("linear", "logistic") else logf(1e-2, 2.)
    c["solver_reg"] = draw(reg)
    if kind in ("linear", "logistic", "weber"):
        c["sampler_reg"] = draw(reg)
        c["l2_reg"] = draw(st.sampled_from([0., .1, 2.]))
    if kind in ("linear", "logistic"):
        c["fit_intercept"] = draw(st.booleans())
    if kind == "newsvendor":
        c["k"], c["u"] = draw(st.sampled_from([[5, 7], [2., 9.], [1, 20], [10, 90.]]))
    if kind == "portfolio":
        c["eta"], c["alpha"] = draw(st.sampled_from([0., 1., 3., 15.])), draw(st.sampled_from([.95, .3, 1., .03]))
    return dict(kind=kind, conf=c, seed=draw(SEED), m=draw(dims(4, 12, 120)), d=draw(dims(1, 3, 20)), k=draw(st.sampled_from([2, 2, 3])),
                cond=draw(st.sampled_from(["default", "none", "loose", "theta"])))


def criterion(q):
    return {"default": None, "none": None, "loose": OptCondTorch(2, .5, .5, monitoring="theta"),
            "theta": OptCondTorch("inf", 1e-1, 0., monitoring="theta", metric="param")}[q["cond"]]


def data(q):
    X = arr(q["seed"], 1, (q["m"], q["d"]))
    r = rng(q["seed"], 2)
    k = q["kind"]
    if k == "newsvendor":
        return np.abs(X) * 3, None
    if k == "portfolio":
        return X, None
    if k == "weber":
        return X, r.random(q["m"]) * 2
    if k == "linear":
        return X, X.sum(1) + r.standard_normal(q["m"])
    y = r.integers(0, q["k"], q["m"])
    y[:q["k"]] = np.arange(q["k"])
    return X, y


def reference(q, X, y):
    """The model written by hand, solved through the generic interface."""
    kind, c, (m, d) = q["kind"], q["conf"], X.shape
    post = c["solver"].endswith("post") or (c["solver"] == "entropic_torch" and kind != "newsvendor")
    pt.manual_seed(c["random_state"])
    kw = dict(epsilon=c["solver_reg"], learning_rate=c["learning_rate"], adapt="prodigy" if c["learning_rate"] is None else None,
              n_iter=steps(c["n_iter"]))
    transform, labels = None, None
    if kind in ("linear", "logistic"):
        many = kind == "logistic" and q["k"] > 2
        transform = nn.Linear(d, q["k"] if many else 1, bias=c["fit_intercept"])
        loss = nn.MSELoss(reduction="none") if kind == "linear" else nn.CrossEntropyLoss(reduction="none") if many else Margin()
        labels = y[:, None] if kind == "linear" else np.eye(q["k"])[y] if many else 2. * y[:, None] - 1.
        kw.update(sigma=c["sampler_reg"], l2reg=c["l2_reg"], imp_samp=post, loss_reduces_spatial_dims=many)
    elif kind == "newsvendor":
        loss, X = Vendor(c["k"], c["u"]), X.mean(1, keepdims=True)
    elif kind == "portfolio":
        loss = MeanRisk(d, c["eta"], c["alpha"])
    else:
        loss, labels = Place(d), y[:, None]
        kw.update(sigma=c["sampler_reg"], l2reg=c["l2_reg"])
    xi = pt.tensor(X, dtype=pt.float32)
    yi = None if labels is None else pt.tensor(labels, dtype=pt.float32)
    R = robustify(loss, transform, pt.tensor(c["rho"]), xi, yi, post, c["cost"], c["n_zeta_samples"], c["random_state"], **kw)
    dist = EmpiricalDistributionWithoutLabels(m, X) if labels is None else EmpiricalDistributionWithLabels(m, X, labels)
    cond = criterion(q)
    if cond is None:
        # the classifier's own default is slightly different
        cond = OptCondTorch(2, 1e-4, 0.) if kind == "logistic" and q["cond"] == "default" else OptCondTorch(2)
    res = quiet(solve_dual_wdro, R, dist, cond)
    if kind in ("linear", "logistic"):
        coef, inter = transform.weight, transform.bias
    else:
        coef, inter = (loss.c if kind == "newsvendor" else loss.weights() if kind == "portfolio" else loss.pos), None
    return coef.detach(), None if inter is None else inter.detach(), res.dual_var, res.robust_loss


def body(q, ctx):
    X, y = data(q)
    c = dict(q["conf"], n_iter=steps(q["conf"]["n_iter"]))
    if q["cond"] != "default":
        c["opt_cond"] = criterion(q)
    e = CLS[q["kind"]](**c)
    quiet(e.fit, X) if y is None else quiet(e.fit, X, y)
    coef, inter, lam, value = reference(q, X, y)
    want, got = to_np(coef).ravel(), to_np(e.coef_, "coef_").ravel()
    size = float(np.abs(want).max())
    if not np.isfinite(want).all() or size > 1e3 or not np.isfinite(value) or abs(value) > 1e6:
        ctx.tag("diverged")
        return False
    t = dict(rtol=2e-3, atol=2e-4 * (1 + size))
    close(got, want, f"coefficients of {q['kind']}", **t)
    if inter is not None:
        close(np.ravel(to_np(e.intercept_, "intercept_")), to_np(inter).ravel(), "intercept", **t)
    elif q["kind"] in ("linear", "logistic"):
        check(e.intercept_ is None, f"intercept {e.intercept_} although disabled")
    lw = np.ravel(to_np(lam))
    close(np.ravel(to_np(e.dual_var_, "dual_var_")), lw, "multiplier", rtol=5e-3, atol=1e-3 * (1e-3 + float(np.abs(lw).max())))
    close(e.robust_loss_, value, "robust loss", rtol=5e-3, atol=1e-3 * (1e-2 + abs(value)))
    ctx.tag(f"{q['kind']}/{q['conf']['solver']}")
    ctx.tag(q["conf"]["cost"])
    return True


CASES = [Case("fit", configs(), body, 240, 1500)]
