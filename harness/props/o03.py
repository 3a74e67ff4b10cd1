"""O03: what the entropic solver returns against a record of what it did."""
import math
import warnings

import numpy as np
import torch as pt
from hypothesis import strategies as st

from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.torch import robustify

from harness import zoo
from harness.core import Case, Violation, check, close, same, to_np
from harness.gen import SEED, dims, fixed, logf, tens

RULE = ("Robustified generated models solved for a few iterations while a recorder follows evaluations and optimiser "
        "steps; non-trivial when the parameters moved away from their initial values.")

KINDS = ["mse", "mse_multi", "huber", "logistic", "xent", "fmse", "nobias", "quad", "lin", "softplus", "newsvendor", "mlp"]


class Run:
    """One problem, its solution and the record of the evaluations."""

    def __init__(self, q):
        if q["rho"] == 0.:
            # the multiplier plays no role and has no gradient to monitor
            q = dict(q, mon="theta")
        self.q = q
        kind, seed, m, d = q["kind"], q["seed"], q["m"], q["d"]
        self.labelled = kind in zoo.LABELLED
        loss, transform, reduces, _, _ = zoo.build(kind, seed, d, q["k"], q["wscale"], pt.float32)
        self.x = tens(seed, 1, (m, d), q["xstyle"], 1., pt.float32).contiguous().numpy()
        self.y = None
        if self.labelled:
            self.y = zoo.labels(kind, seed, 2, (m, zoo.out_dim(kind, q["k"])), q["k"], pt.float32, q["xstyle"]).contiguous().numpy()
        n_iter = q["train"] if q["single"] else (q["warm"], q["train"])
        self.budget = (int(.3 * q["train"]) if q["single"] else q["warm"]) + q["train"]
        self.robust = robustify(
            loss, transform, pt.tensor(q["rho"]), pt.tensor(self.x),
            None if self.y is None else pt.tensor(self.y), post_sample=q["post"], cost_spec=self.code(q["cost"]),
            n_samples=q["n"], seed=q["sseed"], epsilon=q["eps"], sigma=q["sigma"], l2reg=q["l2"],
            adapt=q["adapt"], n_iter=n_iter, imp_samp=q["imp"], loss_reduces_spatial_dims=reduces,
            learning_rate=q["lr"])
        self.before = [p.detach().clone() for p in self.robust.primal_loss.parameters()]
        if self.labelled:
            self.dist = EmpiricalDistributionWithLabels(m=m, samples_x=self.x.copy(), samples_y=self.y.copy())
        else:
            self.dist = EmpiricalDistributionWithoutLabels(m=m, samples=self.x.copy())
        self.values, self.args, self.steps = [], [], 0
        self.robust.register_forward_hook(self.record)
        opt = self.robust.optimizer
        step = opt.step

        def counted(*a, **k):
            self.steps += 1
            return step(*a, **k)
        opt.step = counted

    def code(self, c):
        if c is None:
            return None
        power, ty, kappa = c
        return f"t-NLC-{power}-{ty}-{kappa}" if self.labelled else f"t-NC-{power}-{ty}"

    def record(self, mod, args, out):
        if isinstance(out, pt.Tensor):
            self.values.append(float(out.detach()))
            self.args.append((args, mod.imp_samp))

    def cond(self):
        q = self.q
        return OptCondTorch(q["order"], q["tt"], q["tl"], monitoring=q["mon"], mode=q["mode"], metric=q["metric"])

    def solve(self, cond=None):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.res = solve_dual_wdro(self.robust, self.dist, cond or self.cond())
        return self


def outcome(r):
    s = r.res
    return (to_np(s.coef, "coef"), None if s.intercept is None else to_np(s.intercept, "intercept"),
            to_np(s.dual_var, "multiplier"), float(s.robust_loss))


def agree(a, b, what):
    for i, name in enumerate(["coefficients", "intercept", "multiplier", "robust loss"]):
        if a[i] is None or b[i] is None:
            check(a[i] is None and b[i] is None, f"{name}: {what}")
        else:
            same(a[i], b[i], f"{name} {what}")


def report(q, ctx):
    r = Run(q).solve()
    rob, res = r.robust, r.res
    coef, inter, lam, loss = outcome(r)
    ctx.tag("post" if q["post"] else "pre")
    close(np.ravel(coef), rob.theta.detach().reshape(-1), "returned coefficients against the loss", rtol=1e-6)
    if rob.intercept is None:
        check(inter is None, "an intercept is returned by a model without one")
    else:
        close(np.ravel(inter), rob.intercept.detach().reshape(-1), "returned intercept against the loss", rtol=1e-6)
    check(lam.size == 1, f"multiplier of {lam.size} entries")
    # a training that diverged to NaN reports it as it is
    gone = math.isnan(float(lam.reshape(-1)[0])) and math.isnan(loss)
    check(gone or float(lam.reshape(-1)[0]) >= 0., f"negative multiplier {lam}")
    if q["rho"] == 0.:
        check(float(lam.reshape(-1)[0]) == 0., "non-zero multiplier at a zero radius")
    else:
        close(lam.reshape(-1), rob.lam.detach().reshape(-1), "returned multiplier against the loss", rtol=1e-6)
    check(bool(r.values), "the robust loss was never evaluated")
    if math.isfinite(r.values[-1]):
        close(loss, r.values[-1], "reported robust loss against the last value computed", rtol=1e-6)
    else:
        check(not math.isfinite(loss), f"reported {loss} after a diverged evaluation")
        ctx.tag("diverged")
        check(not q["post"], "the resampling solver diverged on moderate data")
    # parameters are the optimised ones
    check(r.steps <= r.budget, f"{r.steps} optimiser steps for a budget of {r.budget}")
    if q["tt"] <= 0. and q["tl"] <= 0. and math.isfinite(loss):
        check(r.steps == r.budget, f"{r.steps} optimiser steps out of {r.budget} without any tolerance")
        ctx.tag("full budget")
    check(not rob.erm_mode, "empirical-risk mode left on")
    check(rob.imp_samp == Run(q).robust.imp_samp, "importance sampling was switched")
    if r.labelled:
        same(r.dist.samples_x, r.x, "stored data after solving")
        same(r.dist.samples_y, r.y, "stored labels after solving")
    else:
        same(r.dist.samples, r.x, "stored data after solving")
    if not q["post"] and q["rho"] > 0 and math.isfinite(loss):
        # fixed samples: the report is the robust loss at the returned point
        args, imp = r.args[-1]
        rob.imp_samp, was = imp, rob.imp_samp
        again = rob(*args)
        rob.imp_samp = was
        check(len({tuple(np.asarray(a[0][2]).ravel()[:5]) for a in r.args[-3:]
                   if len(a[0]) > 2 and a[0][2] is not None}) <= 1, "fixed samples changed during the run")
        close(loss, again, "reported robust loss against the value at the returned point", rtol=1e-4, atol=1e-5,
              shape=False)
        ctx.tag("re-evaluated")
    return any(bool((a != b).any()) for a, b in zip(r.before, rob.primal_loss.parameters()))


def repeat(q, ctx):
    a = outcome(Run(q).solve())
    if not all(np.isfinite(v).all() for v in a if v is not None):
        ctx.tag("diverged")
    other = dict(q, seed=q["seed"] ^ 977, post=not q["post"], kind=q["kind2"], m=q["m"] % 5 + 1)
    # something else happens in the process
    Run(other).solve()
    pt.manual_seed(q["seed"] % 1000)
    np.random.seed(q["seed"] % 1000)
    pt.randn(7)
    b = outcome(Run(q).solve())
    agree(b, a, "differ when the same problem is solved after another one")
    # same criterion object used for both problems
    cond = Run(q).cond()
    Run(other).solve(cond)
    r2 = Run(q).solve(cond)
    agree(outcome(r2), a, "differ when the stopping criterion served another problem before")
    # another seed gives another run
    if q["post"] and q["rho"] > 0 and q["n"] > 1:
        z = outcome(Run(dict(q, sseed=q["sseed"] + 1)).solve())
        ctx.tag("seeds differ" if not np.array_equal(z[0], a[0]) else "seeds agree")
    return True


COMMON = dict(
    seed=SEED, sseed=st.integers(0, 1000), kind=st.sampled_from(KINDS), m=dims(1, 8, 80), d=dims(1, 4, 20), k=dims(2, 3, 10),
    n=dims(1, 8, 60), post=st.booleans(), wscale=st.sampled_from([1., .1]), xstyle=st.sampled_from(["normal", "int", "small"]),
    rho=st.one_of(logf(1e-3, 1.), logf(1e-3, 1.), logf(1e-3, 1.), st.just(0.), logf(1e-9, 1e-4), logf(1., 20.)), eps=st.one_of(st.none(), logf(1e-2, 1.)),
    sigma=st.one_of(st.none(), logf(1e-2, 1.)), l2=st.sampled_from([None, None, .1]),
    adapt=st.sampled_from([None, "prodigy", "mechanic"]), imp=st.booleans(), lr=st.sampled_from([None, 1e-2]),
    cost=st.sampled_from([None, (2, 2, 1.), (2, 2, 100.), (1, 1, 1.), (1, 1, .5)]),
    warm=dims(0, 6, 40), train=st.one_of(dims(1, 15, 60), dims(1, 15, 60), st.integers(30, 60)), single=st.booleans(),
    order=st.sampled_from([1, 2, "inf"]), tt=st.sampled_from([0., 1e-8, 1e-2, .5]), tl=st.sampled_from([0., 1e-8, .1]),
    mon=st.sampled_from(["theta", "lambda", "both", "one"]), mode=st.sampled_from(["rel", "abs"]),
    metric=st.sampled_from(["grad", "param"]))

CASES = [
    Case("report", fixed(**COMMON), report, 220, 4000),
    Case("repeat", fixed(kind2=st.sampled_from(KINDS), **COMMON), repeat, 50, 900),
]
