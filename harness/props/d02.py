"""D02: zero radius and empirical-risk mode reduce to the primal loss."""
import math

import torch as pt
from hypothesis import strategies as st

from harness.core import Case, check, close, fail, has_shape, must_raise, to_np
from harness.dual import HIST, DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params
from harness.gen import logf

RULE = ("Generated robust losses evaluated at radius zero, in empirical-risk mode, along sequences of mode and "
        "radius changes, and at invalid radii; non-trivial when the robust value differs from the empirical one "
        "(so that ignoring the mode is visible) or the case exercises an invalid radius.")

FORMS = {"pre": DualPreSampledLoss, "post": DualPostSampledLoss}


def erm(P):
    return P.reduce(P.L(P.D(P.xi), P.D(P.y)))


def tol(P):
    s = P.scale() + float(P.L(P.D(P.xi), P.D(P.y)).abs().max()) * P.q["m"]
    return dict(rtol=0., atol=(2e-5 if P.dt == pt.float32 else 1e-9) * s)


def evaluations(P, form):
    """The ways a caller can evaluate the robust loss of the data."""
    if form == "post":
        yield "fresh samples", lambda: P.robust(P.xi, P.y)
    else:
        yield "given samples", lambda: P.robust(P.xi, P.y, P.zeta, P.zl)
        yield "kept samples", lambda: P.robust(P.xi, P.y)


def shape(q):
    return (q["m"],) if q["reduction"] == "none" else ()


def zero(q, ctx):
    P = Problem(dict(q, rho=0.), FORMS[q["form"]])
    P.set_lam(q["lam"])
    for name, f in evaluations(P, q["form"]):
        got = f()
        has_shape(got, shape(q), f"zero-radius loss ({name})")
        close(got, erm(P), f"zero-radius loss ({name})", **tol(P))
    ctx.tag(q["form"]); ctx.tag(f"red={q['reduction']}")
    return True


def moved_to_zero(q, ctx):
    """Radius set to zero after construction and evaluation at a positive one."""
    P = Problem(q, FORMS[q["form"]])
    for _, f in evaluations(P, q["form"]):
        f()
    P.set_rho(0.)
    for name, f in evaluations(P, q["form"]):
        got = f()
        has_shape(got, shape(q), f"zero-radius loss ({name})")
        close(got, erm(P), f"zero-radius loss ({name})", **tol(P))
    return True


def modes(q, ctx):
    P = Problem(q, FORMS[q["form"]])
    robust = P.ref_dual()
    plain = erm(P)
    for on in q["switches"]:
        P.robust.erm_mode = on
        for name, f in evaluations(P, q["form"]):
            got = f()
            has_shape(got, shape(q), f"loss in ERM mode={on} ({name})")
            close(got, plain if on else robust, f"loss in ERM mode={on} ({name})",
                  **(tol(P) if on else P.tol()))
    return bool((robust - plain).abs().max() > 1e-6)


def invalid(q, ctx):
    bad = {"neg": -q["rho"], "tinyneg": -1e-12, "nan": math.nan, "-inf": -math.inf}[q["bad"]]
    if q["at_start"]:
        P = Problem(dict(q, rho=bad), FORMS[q["form"]])
    else:
        P = Problem(q, FORMS[q["form"]])
        P.robust(P.xi, P.y, P.zeta, P.zl)
        P.set_rho(bad)
    for name, f in evaluations(P, q["form"]):
        if bad != bad:
            v = to_np(f(), "loss at NaN radius")
            check(bool((v != v).all()), f"NaN radius gave {v} ({name})")
        else:
            must_raise(ValueError, f, f"loss at radius {bad} ({name})")
    ctx.tag(q["bad"])
    return True


FORM = st.sampled_from(["pre", "post"])
CASES = [
    Case("zero", dual_params(hist=HIST, form=FORM), zero, 1200),
    Case("moved_to_zero", dual_params(hist=HIST, form=FORM), moved_to_zero, 500),
    Case("modes", dual_params(hist=HIST, form=FORM, switches=st.lists(st.booleans(), min_size=1, max_size=5)), modes, 900),
    Case("invalid", dual_params(form=FORM, bad=st.sampled_from(["neg", "tinyneg", "nan", "-inf"]),
                                at_start=st.booleans()), invalid, 300),
]
