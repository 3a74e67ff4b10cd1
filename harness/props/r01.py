"""R01: robustifying a user model with options."""
import numpy as np
import torch as pt
import torch.nn as nn
from hypothesis import strategies as st

from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss
from skwdro.wrap_problem import dualize_primal_loss

from harness import zoo
from harness.core import Case, check, close, has_shape, must_raise, to_np
from harness.dual import Problem, dual_params
from harness.fits import quiet
from harness.gen import logf, tens
from harness.laws import LAW_OF_COST
from harness.props.s01 import continuous

RULE = ("Generated models, data and option sets handed to the wrapping function; an evaluation is non-trivial when the "
        "robust term (or its samples) takes part in the value compared.")

CODES = [None, "t-NC-2-2", "t-NLC-2-2", "t-NLC-2-2-4", "t-NLC-2-2-0.5", "t-NLC-2-2-inf", "t-NC-1-2", "t-NLC-1-2-4", "t-NC-1-1",
         "t-NLC-1-1-4", "t-NC-1-inf", "t-NLC-1-inf-4", "NC-2-2", "NLC-1-2"]
KINDS = zoo.SMOOTH_LABELLED + zoo.SMOOTH_UNLABELLED


def decode(code, labelled):
    """Cost behind a code: identifier, power, norm type, label weight."""
    if code is None:
        return ("NLC" if labelled else "NC"), 2., 2., 1e8
    f = code.split("-")
    f = f[1:] if f[0] == "t" else f
    return f[0], float(f[1]), float(f[2]), (float(f[3]) if len(f) > 3 else 1e8)


OPTIONS = dict(
    code=st.sampled_from(CODES), eps_given=st.one_of(st.none(), logf(1e-3, 10.), logf(1e-7, 1e3)), sigma_given=st.one_of(st.none(), logf(1e-3, 3.), logf(1e-6, 50.), logf(50., 1e4)),
    rho=st.one_of(logf(1e-3, 10.), st.sampled_from([0., 1e-6])), post=st.booleans(), imp=st.booleans(),
    ask=st.sampled_from(["given", "given", "default"]), budget=st.sampled_from([None, 5, [2, 3], [0, 1], 0]),
    lr=st.sampled_from([None, .3, 4., 1e-5]), adapt=st.sampled_from(["prodigy", "mechanic", None, "default"]),
    rseed=st.one_of(st.integers(0, 10**6), st.sampled_from([0, 0, 1, 42])), positional=st.booleans())


def wrap(P, q, **over):
    """The library's robust version of the user model of P."""
    kw = {}
    if q["adapt"] != "default":
        kw["adapt"] = q["adapt"]
    if q["ask"] == "given":
        kw["imp_samp"] = q["imp"]
    if q["budget"] is not None:
        kw["n_iter"] = tuple(q["budget"]) if isinstance(q["budget"], list) else q["budget"]
    if q["eps_given"] is not None:
        kw["epsilon"] = q["eps_given"]
    if q["sigma_given"] is not None:
        kw["sigma"] = q["sigma_given"]
    if q["lr"] is not None:
        kw["learning_rate"] = q["lr"]
    if q["reduction"] is not None:
        kw["reduction"] = q["reduction"]
    if P.l2 is not None:
        kw["l2reg"] = P.l2
    if q["kind"] in ("xent", "ured"):
        kw["loss_reduces_spatial_dims"] = True
    kw.update(over)
    rho = pt.tensor(q["rho"], dtype=P.dt)
    a = (P.loss_, over.pop("transform", P.transform_), rho, P.xi, P.y)
    kw.pop("transform", None)
    if q["positional"]:
        return dualize_primal_loss(*a, q["post"], q["code"], q["n"], q["rseed"], **kw)
    return dualize_primal_loss(*a, post_sample=q["post"], cost_spec=q["code"], n_samples=q["n"], seed=q["rseed"], **kw)


def expected(q, P):
    """Width and temperature from the documented heuristics."""
    _, power, _, _ = decode(q["code"], P.labelled)
    rho = float(pt.tensor(q["rho"], dtype=P.dt))
    s = q["sigma_given"] if q["sigma_given"] is not None else (.5 * rho if rho > 0 else .5)
    e = q["eps_given"] if q["eps_given"] is not None else max(1e-2 * .5 ** power * rho ** (power - 1.), 1e-7)
    return s, e, rho


def problem(q):
    cid, power, p, kappa = decode(q["code"], q["kind"] in zoo.LABELLED)
    if q["kind"] not in zoo.LABELLED:
        cid = "NC"
    return Problem(dict(q, cid=cid, power=power, p=p, kappa=kappa, eps=1.), DualPostSampledLoss), cid, power, p


def adapted(q):
    """A label cost needs labels: unlabelled models take the label-free code."""
    if q["code"] is not None and q["kind"] not in zoo.LABELLED:
        _, power, p, _ = decode(q["code"], False)
        return dict(q, code=f"t-NC-{power:g}-{p:g}")
    return q


def attributes(R, q, P):
    s, e, rho = expected(q, P)
    close(R.rho, rho, "radius", rtol=1e-6)
    close(R.epsilon, e, "temperature", rtol=1e-6, atol=0.)
    check(R.n_samples == q["n"], f"sample count {R.n_samples}, asked {q['n']}")
    check(isinstance(R, DualPostSampledLoss if q["post"] else DualPreSampledLoss), f"{type(R).__name__} for post_sample={q['post']}")
    check(bool(R.presample) != q["post"], "presample flag")
    n_iter = ((200, 2800) if q["post"] else (100, 10)) if q["budget"] is None else q["budget"]
    got = tuple(R.n_iter) if isinstance(R.n_iter, (tuple, list)) else R.n_iter
    check(got == (tuple(n_iter) if isinstance(n_iter, (tuple, list)) else n_iter), f"step budget {R.n_iter}, expected {n_iter}")
    if not q["post"] or q["adapt"] is None:
        lr = q["lr"] if q["lr"] is not None else (.05 if q["post"] else 1.)
        for g in R.optimizer.param_groups:
            check(g["lr"] == lr, f"learning rate {g['lr']}, expected {lr}")
    power = decode(q["code"], P.labelled)[1]
    check(float(R.cost.power) == power, f"power of the cost {R.cost.power}, expected {power}")
    return s, e, rho


def value(q, ctx):
    q = adapted(q)
    P, cid, power, p = problem(q)
    R = wrap(P, q)
    s, e, rho = attributes(R, q, P)
    imp = (q["imp"] if q["ask"] == "given" else True) and power == 2 and p == 2
    lam0 = 1e-3 / rho if rho > 0 else 0.
    close(R.lam, lam0, "starting multiplier", rtol=1e-5, atol=0.)
    # the first draw is that of the reference law of the cost with the width and the seed
    z, w = R.generate_zetas()
    hand = pt.tensor(s, dtype=P.dt)
    hand = LabeledCostSampler(P.cost, P.xi, P.y, hand, q["rseed"]) if P.labelled else NoLabelsCostSampler(P.cost, P.xi, hand, q["rseed"])
    zh, wh = hand.sample(q["n"])
    has_shape(z, (q["n"], q["m"], q["d"]), "first draw")
    ulp = (3e-7 if P.dt == pt.float32 else 1e-7)
    close(z, zh, "first draw", rtol=0., atol=ulp * (10 * s + float(P.xi.abs().max())))
    if wh is not None:
        close(w, wh, "labels of the first draw", rtol=0., atol=ulp * (float((wh - P.y).abs().max()) * 3 + float(P.y.abs().max()) + 1e-3 * s))
    P.robust = R
    P.set_lam(q["lam"])
    got = R(P.xi, P.y, P.zeta, P.zl) if not q["post"] else R.compute_dual(P.xi, P.y, P.zeta, P.zl)
    has_shape(got, (q["m"],) if q["reduction"] == "none" else (), "robust loss")
    if rho == 0:
        L = P.L(P.D(P.xi), P.D(P.y))
        close(got, P.reduce(L), "value at a null radius", rtol=0., atol=(1e-4 if P.dt == pt.float32 else 1e-9) * P.scale())
        ctx.tag("zero radius")
        return True
    tol = P.tol()
    plain = P.ref_dual(rho=rho, eps=e)
    ctx.tag("importance" if imp else "plain")
    ctx.tag(str(q["code"]))
    if not imp:
        close(got, plain, "robust loss without importance sampling", rtol=tol["rtol"], atol=10 * tol["atol"] + 2e-6 * P.scale())
        return True
    # importance sampling on the sampler of the expected width
    def sampler(Q):
        c, dt = Q.cost, pt.tensor(s, dtype=Q.dt)
        return LabeledCostSampler(c, Q.xi, Q.y, dt, 1) if Q.labelled else NoLabelsCostSampler(c, Q.xi, dt, 1)
    ref = Problem(dict(q, cid=cid, power=power, p=p, kappa=decode(q["code"], P.labelled)[3], eps=e), DualPostSampledLoss, imp_samp=True, sampler=sampler)
    want = ref.robust.compute_dual(P.xi, P.y, P.zeta, P.zl)
    a = to_np(want)
    sc = 1e-5 * max(float(np.abs(a).max()), P.scale()) * (10 if P.dt == pt.float32 else 1)
    close(got, want, "robust loss with importance sampling", rtol=0., atol=sc)
    if float(np.abs(a - to_np(plain)).max()) > 10 * sc:
        ctx.tag("importance matters")
    return True


class Spy(nn.Module):
    """User transform that remembers what it is given."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.seen = []

    def forward(self, x):
        if not pt._C._functorch.is_functorch_wrapped_tensor(x):
            self.seen.append(x.detach().clone())
        return self.inner(x)


def spied(P, q, **over):
    spy = Spy(P.transform_ if P.transform_ is not None else nn.Identity())
    return spy, wrap(P, q, transform=spy, **over)


def batches(seen, n, m):
    """Sample batches among the inputs of the user's transform."""
    return [x.reshape(n, m, x.shape[-1]) for x in seen if x.shape[:-1].numel() == n * m]


def samples(q, ctx):
    """What the model is evaluated at: number, centre, law and freshness."""
    q = adapted(q)
    q = dict(q, reduction=None, n=q["big"], lam=0.)
    P, cid, power, p = problem(q)
    s, e, rho = expected(q, P)
    if rho == 0:
        return False
    spy, R = spied(P, q, imp_samp=False)
    law = LAW_OF_COST[p, power]
    tr = float(pt.tensor(s, dtype=P.dt))

    def evaluate(x, y):
        """The batches one evaluation looks at."""
        before = len(spy.seen)
        if q["post"]:
            R(x, y)
        else:
            if R.zeta is None:
                R(x, y, *R.generate_zetas())
            else:
                R(x, y)
        new = batches(spy.seen[before:], q["n"], x.shape[0])
        check(len(new) >= 1, f"the model was not evaluated at {q['n']} samples, but at {[tuple(b.shape) for b in spy.seen[before:]]}")
        return new[-1]
    a = evaluate(P.xi, P.y)
    b = evaluate(P.xi, P.y)
    has_shape(a, (q["n"], q["m"], q["d"]), "samples")
    if q["post"]:
        check(not bool((a == b).all()), "samples were not redrawn between evaluations")
    else:
        check(bool((a == b).all()), "fixed samples changed between evaluations")
    # relative rounding of samples kept in single precision around large data
    X = to_np(P.xi)
    if P.dt == pt.float64 or float(np.abs(X).max()) * 1e-7 < 1e-4 * tr:
        continuous(dict(kind=law, scale=tr, tril=tr * np.eye(q["d"])), to_np(a), X, "samples of the wrapped model", ctx)
        ctx.tag("law"); ctx.tag("width given" if q["sigma_given"] is not None else "width derived")
    if q["post"]:
        # another batch becomes the centre
        x2 = tens(q["seed"], 71, (q["m"] + 1, q["d"]), "offset", 1., P.dt)
        y2 = None if P.y is None else pt.cat([P.y, P.y[:1]])
        c = to_np(evaluate(x2, y2))
        dev = np.abs(c.mean(0) - to_np(x2))
        lim = 9. * tr * (2 if law == "laplace" else 1) / q["n"] ** .5 + 1e-5 * np.abs(to_np(x2)).max()
        check(bool((dev < lim).all()), f"samples of a new batch are centred {dev.max():.3g} away from it")
    # the seed decides
    spy2, R2 = spied(P, q, imp_samp=False)
    c = first(R2, spy2, P, q)
    check(bool((c == a).all()), "equal seeds gave different samples")
    q3 = dict(q, rseed=q["rseed"] + 1)
    spy3, R3 = spied(P, q3, imp_samp=False)
    check(not bool((first(R3, spy3, P, q3) == a).all()), "different seeds gave the same samples")
    ctx.tag("post" if q["post"] else "pre"); ctx.tag(str(q["code"]))
    return True


def first(R, spy, P, q):
    if q["post"]:
        R(P.xi, P.y)
    else:
        R(P.xi, P.y, *R.generate_zetas())
    b = batches(spy.seen, q["n"], q["m"])
    check(len(b) >= 1, "the model was not evaluated at the requested number of samples")
    return b[-1]


def training(q, ctx):
    """During training, fixed samples stay and fresh ones change."""
    q = adapted(q)
    q = dict(q, reduction=None, m=max(2, q["m"]), n=q["n"] + q["m"] + 3, dtype="f32", budget=[1, 3], adapt=None, lr=1e-4)
    P, cid, power, p = problem(q)
    if expected(q, P)[2] == 0:
        return False
    spy, R = spied(P, q, imp_samp=False)
    dist = EmpiricalDistributionWithoutLabels(q["m"], to_np(P.xi)) if P.y is None else \
        EmpiricalDistributionWithLabels(q["m"], to_np(P.xi), to_np(P.y))
    quiet(solve_dual_wdro, R, dist, OptCondTorch(2, 0., 0.))
    b = batches(spy.seen, q["n"], q["m"])
    check(len(b) >= 3, f"the model was evaluated at samples {len(b)} times in a training of three steps")
    if not all(bool(x.isfinite().all()) for x in b):
        return False
    for x, y in zip(b, b[1:]):
        if q["post"]:
            check(not bool((x == y).all()), "training reused samples that should be redrawn")
        else:
            check(bool((x == y).all()), "training changed the fixed samples")
    ctx.tag("post" if q["post"] else "pre")
    return True


def invalid(q, ctx):
    q = adapted(q)
    P, *_ = problem(q)
    if q["post"]:
        must_raise((AssertionError, ValueError, NotImplementedError), lambda: wrap(P, q, adapt="momentum"), "an unknown adaptive step")
    for bad in ("t-XX-2-2", "t-NC-2", "q-NC-2-2", ""):
        must_raise((Exception,), lambda: wrap(P, dict(q, code=bad)), f"cost code {bad!r}")
    if P.y is not None:
        y = P.y
        P.y = to_np(y)
        must_raise((AssertionError, TypeError, ValueError), lambda: wrap(P, q), "labels that are not a tensor")
    return True


Q = dict(kinds=KINDS, rho=OPTIONS["rho"], lam=logf(1e-2, 1e2), l2=st.sampled_from([None, None, 0., .3, 1e-3]))
ALL = dual_params(**Q, **{k: v for k, v in OPTIONS.items() if k != "rho"})
BIG = dual_params(**dict(Q, kinds=["mse", "mse_multi", "logistic", "lin", "softplus", "fsq"]), max_m=3, max_d=3, far=(None, None, 12),
                  big=st.sampled_from([1500, 2000, 2600]), **{k: v for k, v in OPTIONS.items() if k != "rho"})

CASES = [
    Case("value", ALL, value, 600, 9000),
    Case("samples", BIG, samples, 120, 1500),
    Case("training", ALL, training, 60, 600),
    Case("invalid", ALL, invalid, 30, 300),
]
