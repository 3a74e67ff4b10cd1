"""D08: where the robust loss gets its samples from."""
import torch as pt
from hypothesis import strategies as st

from skwdro.base.costs_torch import NormCost
from skwdro.base.losses_torch.wrapper import WrappingError
from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler

from harness import zoo
from harness.core import Case, Violation, check, close, has_shape, must_raise, same
from harness.dual import DualPostSampledLoss, DualPreSampledLoss, FixedSampler, Problem, dual_params
from harness.gen import SEED, logf, tens

RULE = ("Robust losses built without a sampler, with a replaced one or moved to other data, compared with the draws of a "
        "sampler of the cost built by hand; non-trivial when the samples spread around the data.")

# (power, type) pairs with a reference law
LAWS = [(1., 1.), (1., 2.), (2., 2.), (1., float("inf"))]


def pick(q):
    power, p = q["law"]
    kappa = q["kappa"] if q["kappa"] not in (0., float("inf")) else 2.
    return dict(q, power=power, p=p, kappa=kappa)


def by_hand(P, sigma, seed, xi=None, y=None):
    xi, y = P.xi if xi is None else xi, P.y if y is None else y
    if P.labelled:
        return LabeledCostSampler(P.cost, xi, y, sigma, seed=seed)
    return NoLabelsCostSampler(P.cost, xi, sigma, seed=seed)


def use(P, zz):
    P.zeta, P.zl = zz
    return P.ref_dual()


def bare(q, form):
    P = Problem(pick(q), form, sampler=lambda _: None)
    return P


def samples_equal(a, b, what):
    same(a[0], b[0], what)
    if b[1] is None:
        check(a[1] is None, f"{what}: labels appeared")
    else:
        same(a[1], b[1], f"{what} (labels)")


def missing(q, ctx):
    """No sampler: one is created at the first evaluation, of width epsilon."""
    P = bare(q, DualPostSampledLoss)
    must_raise((ValueError,), P.robust.generate_zetas, "drawing without a sampler")
    pt.manual_seed(q["rseed"])
    got = P.robust(P.xi, P.y)
    pt.manual_seed(q["rseed"])
    s = by_hand(P, float(P.robust.epsilon.detach()), None)
    want = use(P, s.sample(q["n"]))
    close(got, want, "robust loss without a sampler", **P.tol())
    # later evaluations go on drawing from it, around the data they get
    other = tens(q["seed"], 77, P.xi.shape, "normal", 1., P.dt)
    pt.manual_seed(q["rseed"] + 1)
    got = P.robust(other, P.y)
    s.reset_mean(other, P.y)
    pt.manual_seed(q["rseed"] + 1)
    xi, P.xi = P.xi, other
    want = use(P, s.sample(q["n"]))
    close(got, want, "second robust loss without a sampler", **P.tol())
    ctx.tag(f"law={q['law']}")
    return bool((P.zeta != other).any())


def explicit(q, ctx):
    """init_sampler with a width and a seed."""
    form = DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss
    P = bare(q, form)
    if P.labelled:
        must_raise((AssertionError, ValueError, TypeError), lambda: P.robust.init_sampler(P.xi, None, q["sigma"], 0), "no labels")
    else:
        must_raise((AssertionError, ValueError, TypeError), lambda: P.robust.init_sampler(P.xi, P.xi, q["sigma"], 0), "spurious labels")
    # a labelled sampler needs labels, however few points there are
    for x in (P.xi, P.xi[:1]):
        must_raise((ValueError,), lambda: LabeledCostSampler(NormCost(p=2., power=2.), x, None, q["sigma"], q["rseed"]), "a labelled sampler without labels")
    if q["kind"] in zoo.BUILTIN and P.dt == pt.float32:
        own = P.robust.default_sampler(P.xi, P.y, pt.tensor(q["sigma"]), q["rseed"]).sample(q["n"])
        ref = P.primal.default_sampler(P.xi, P.y, pt.tensor(q["sigma"]), q["rseed"]).sample(q["n"])
        samples_equal(own, ref, "default sampler of the loss")
        check(own[0].shape == (q["n"],) + tuple(P.xi.shape), "default samples do not fit the data")
    elif q["kind"] not in zoo.BUILTIN:
        must_raise((NotImplementedError, ValueError, TypeError, WrappingError), lambda: P.robust.default_sampler(P.xi, P.y, q["sigma"], q["rseed"]),
                   "default sampler of a user's loss")
    back = P.robust.init_sampler(P.xi, P.y, q["sigma"], q["rseed"])
    a = [P.robust.generate_zetas(), P.robust.generate_zetas(q["count"]), P.robust.generate_zetas(0), P.robust.generate_zetas(-3)]
    s = by_hand(P, q["sigma"], q["rseed"])
    b = [s.sample(k) for k in (q["n"], q["count"], q["n"], q["n"])]
    for i, (u, v) in enumerate(zip(a, b)):
        samples_equal(u, v, f"draw {i} of the initialised sampler")
    check(P.robust.sampler is back and P.primal.sampler is back, "the created sampler is not the one used")
    # asked again with another width and seed
    s2, r2 = q["sigma"] * q["wider"], q["rseed"] + q["later"]
    P.robust.init_sampler(P.xi, P.y, s2, r2)
    if q["form"] == "post":
        got = P.robust(P.xi, P.y)
        s = by_hand(P, s2, r2)
        want = use(P, s.sample(q["n"]))
    else:
        must_raise((ValueError,), lambda: P.robust(P.xi, P.y), "fixed-samples loss without samples")
        zz = P.robust.generate_zetas()
        samples_equal(zz, by_hand(P, s2, r2).sample(q["n"]), "draw of the sampler initialised again")
        got = P.robust(P.xi, P.y, *zz)
        want = use(P, zz)
        samples_equal(P.robust.current_samples, zz, "samples in use")
    close(got, want, "robust loss with the initialised sampler", **P.tol())
    return bool((P.zeta != P.xi).any())


def replaced(q, ctx):
    """A sampler can be replaced; reset_sampler=False keeps its centre."""
    P = Problem(pick(q), DualPostSampledLoss, sampler=lambda P: by_hand(P, q["sigma"], q["rseed"]))
    P.robust(P.xi, P.y)
    mine = FixedSampler(P.zeta, P.zl)
    P.robust.sampler = mine
    check(P.robust.sampler is mine and P.primal.sampler is mine, "the new sampler is not the one used")
    close(P.robust(P.xi, P.y), P.ref_dual(), "robust loss with a replaced sampler", **P.tol())
    P.robust.sampler = by_hand(P, q["sigma"], q["rseed"] + 5)
    other = P.xi + 3.
    got = P.robust(other, P.y, reset_sampler=False)
    z = by_hand(P, q["sigma"], q["rseed"] + 5).sample(q["n"])
    xi, P.xi = P.xi, other
    want = use(P, z)
    close(got, want, "robust loss around the former centre", **P.tol())
    if q["form"] == "post":
        P.robust.sampler = by_hand(P, q["sigma"], q["rseed"] + 6, xi=xi)
        got = P.robust(other, P.y)
        s = by_hand(P, q["sigma"], q["rseed"] + 6, xi=xi)
        s.reset_mean(other, P.y)
        close(got, use(P, s.sample(q["n"])), "robust loss around the new centre", **P.tol())
    opt = P.robust.optimizer
    P.robust.optimizer = None
    must_raise((AttributeError,), lambda: P.robust.optimizer, "a missing optimiser")
    P.robust.optimizer = opt
    check(P.robust.optimizer is opt, "optimiser not restored")
    return True


COMMON = dict(law=st.sampled_from(LAWS), rseed=st.one_of(st.integers(0, 10**6), st.sampled_from([0, 0, 1, 42])), sigma=logf(1e-2, 2.), count=st.integers(1, 12),
              wider=st.sampled_from([1., 1.5, .3]), later=st.integers(0, 3),
              form=st.sampled_from(["pre", "post"]))
P_ = dual_params(eps=logf(1e-2, 2.), **COMMON)
CASES = [Case("missing", P_, missing, 200, 2000), Case("explicit", P_, explicit, 200, 2000), Case("replaced", P_, replaced, 200, 2000)]
