"""D01: value of the robust loss against the documented dual formula."""
from contextlib import contextmanager, nullcontext

import torch as pt
from hypothesis import strategies as st

from harness.core import Case, check, close, has_shape
from harness.dual import HIST, DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params
from harness.gen import logf

RULE = ("Generated robust losses (model, cost, radius, temperature, multiplier, reduction, samples); "
        "non-trivial when at least two samples with different terms enter the log-mean-exp "
        "(or the multiplier term is positive) so that a wrong formula changes the value.")
ASSUMPTIONS = ["torch elementary operations are trusted", "finite inputs of magnitude below 1e4"]


def expected_shape(q):
    return (q["m"],) if q["reduction"] == "none" else ()


def nontrivial(P, want):
    L, c = P.terms()
    return bool((L - P.lam64() * c).std(0, unbiased=False).max() > 1e-9) or P.lam64() > 0


@contextmanager
def place(P, how):
    """Evaluation mode and absence of gradients do not matter to the value."""
    if "eval" in how:
        P.robust.eval()
    with pt.no_grad() if "nograd" in how else nullcontext():
        yield
    if "eval" in how:
        P.robust.train()


def pre(q, ctx):
    P = Problem(q, DualPreSampledLoss)
    if "grad" in q["place"]:
        P.xi.requires_grad_("nograd" not in q["place"])
    with place(P, q["place"]):
        return evaluate(P, q, ctx)


def evaluate(P, q, ctx):
    got = P.robust(P.xi, P.y, P.zeta, P.zl)
    has_shape(got, expected_shape(q), "robust loss")
    want = P.ref_dual()
    close(got, want, "robust loss (given samples)", **P.tol())
    # the samples are kept for the next evaluation
    again = P.robust(P.xi, P.y)
    close(again, want, "robust loss (kept samples)", **P.tol())
    # until others are given
    P.zeta = pt.cat([P.zeta, P.xi.unsqueeze(0)]) if q["grow"] else P.zeta[1:] if q["n"] > 1 else P.zeta + 1.
    if P.zl is not None:
        P.zl = pt.cat([P.zl, P.y.unsqueeze(0)]) if q["grow"] else P.zl[1:] if q["n"] > 1 else P.zl
    want2 = P.ref_dual()
    for args in ((P.xi, P.y, P.zeta, P.zl), (P.xi, P.y)):
        close(P.robust(*args), want2, "robust loss (other samples)", **P.tol())
    ctx.tag(q["kind"]); ctx.tag(f"red={q['reduction']}"); ctx.tag(q["dtype"]); ctx.tag(q["place"])
    return nontrivial(P, want)


def post(q, ctx):
    P = Problem(q, DualPostSampledLoss, adapt=q["adapt"])
    reset = q["reset"]
    with place(P, q["place"]):
        got = P.robust(P.xi, P.y, reset_sampler=reset) if reset is not None else P.robust(P.xi, P.y)
    has_shape(got, expected_shape(q), "robust loss")
    want = P.ref_dual()
    close(got, want, "robust loss (drawn samples)", **P.tol())
    check(P.sampler.requests == [q["n"]], f"sampler asked for {P.sampler.requests}, expected [{q['n']}]")
    moved = P.sampler.means
    if reset is False:
        check(not moved, "sampler moved although asked not to")
    else:
        check(len(moved) == 1 and bool((moved[0][0] == P.xi).all()),
              "sampler not centred on the data of the batch")
    ctx.tag(f"adapt={q['adapt']}"); ctx.tag(q["kind"])
    return nontrivial(P, want)


def direct(q, ctx):
    """compute_dual on explicit samples for both forms."""
    P = Problem(q, DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss)
    with place(P, q["place"]):
        got = P.robust.compute_dual(P.xi, P.y, P.zeta, P.zl)
    want = P.ref_dual()
    close(got, want, "dual value", **P.tol())
    return nontrivial(P, want)


def changes(q, ctx):
    """Radius, temperature and multiplier are read at evaluation time."""
    P = Problem(q, DualPreSampledLoss)
    P.robust(P.xi, P.y, P.zeta, P.zl)
    for step in q["updates"]:
        P.set_lam(step["lam"]); P.set_rho(step["rho"]); P.set_eps(step["eps"])
        close(P.robust(P.xi, P.y, P.zeta, P.zl), P.ref_dual(), "robust loss after changing parameters", **P.tol())
    return True


upd = st.lists(st.fixed_dictionaries(dict(
    lam=st.one_of(logf(1e-3, 1e2), st.just(0.)), rho=logf(1e-3, 10.), eps=logf(1e-3, 10.))), min_size=1, max_size=6)
# the number of samples asked for says nothing about samples that are given
PLACE = dict(place=st.sampled_from(["", "", "", "eval", "nograd", "eval nograd", "grad"]))
GIVEN = dict(PLACE, nconf=st.sampled_from([None, None, 1, 2, 10, 200]), grow=st.booleans())
CASES = [
    Case("pre", dual_params(hist=HIST, **GIVEN), pre, 2200),
    Case("pre_large", dual_params(hist=HIST, max_m=60, max_n=70, max_d=12, far=(300, 300, 60), **GIVEN), pre, 400),
    Case("extreme", dual_params(hist=HIST, rho=logf(1e-9, 1e5), eps=logf(1e-7, 1e5), lam=st.one_of(logf(1e-9, 1e7), logf(1e-9, 1e7), logf(1e-3, 10.).map(lambda v: -v)), **GIVEN), pre, 400),
    Case("post", dual_params(hist=HIST, **PLACE, adapt=st.sampled_from([None, "prodigy", "mechanic"]),
                             reset=st.sampled_from([None, True, False])), post, 900),
    Case("direct", dual_params(hist=HIST, **PLACE, form=st.sampled_from(["pre", "post"])), direct, 600),
    Case("changes", dual_params(hist=HIST, updates=upd), changes, 400),
]
