"""S03: the Dirac distribution."""
import torch as pt
from hypothesis import strategies as st

import skwdro.distributions as dst

from harness.core import Case, check, close, has_shape, same, to_np
from harness.dual import INF
from harness.gen import DTYPES, SEED, STYLES, dims, fixed, rng, tens

RULE = "Generated locations, batch splits, sample and expansion shapes; every evaluation is non-trivial."

SHAPES = st.lists(st.integers(1, 4), min_size=0, max_size=3)


def invariants(D, loc, nb, what):
    s = tuple(loc.shape)
    check(tuple(D.batch_shape) == s[:nb], f"{what}: batch shape {tuple(D.batch_shape)}, expected {s[:nb]}")
    check(tuple(D.event_shape) == s[nb:], f"{what}: event shape {tuple(D.event_shape)}, expected {s[nb:]}")
    same(D.mean, loc, f"{what}: mean")
    same(D.mode, loc, f"{what}: mode")
    same(D.variance, pt.zeros_like(loc), f"{what}: variance")
    same(D.stddev, pt.zeros_like(loc), f"{what}: standard deviation")


def draws(D, loc, shape, as_tuple, what):
    sh = tuple(shape) if as_tuple == "tuple" else list(shape) if as_tuple == "list" else pt.Size(shape)
    for f in (D.rsample, D.sample):
        v = f(sh)
        has_shape(v, tuple(shape) + tuple(loc.shape), f"{what}: sample")
        same(v, loc.expand(tuple(shape) + tuple(loc.shape)), f"{what}: sample")
        check(v.dtype == loc.dtype, f"{what}: sample in {v.dtype}")


def dirac(q, ctx):
    dt = DTYPES[q["dtype"]]
    loc = tens(q["seed"], 1, tuple(q["shape"]), q["style"], 1., dt)
    nb = min(q["nb"], loc.dim() - 1)
    keep = loc.clone()
    D = dst.Dirac(loc, nb, q["validate"])
    invariants(D, loc, nb, "location")
    if nb == 0:
        invariants(dst.Dirac(loc), loc, 0, "default batch")
    draws(D, loc, q["sample"], q["as"], "location")
    # gradients
    leaf = loc.clone().requires_grad_(True)
    v = dst.Dirac(leaf, nb, q["validate"]).rsample(pt.Size(q["sample"]))
    wgt = tens(q["seed"], 3, tuple(v.shape), "normal", 1., dt)
    g, = pt.autograd.grad((v * wgt).sum(), [leaf])
    want = wgt.double().reshape((-1,) + tuple(loc.shape)).sum(0)
    close(g, want, "gradient through the sample", rtol=1e-5, atol=1e-4 if q["dtype"] == "f32" else 1e-10)
    # expansion
    eb = tuple(q["expand"]) + tuple(3 if q["grow"] and k == 1 else k for k in loc.shape[:nb])
    big = D.expand(pt.Size(eb))
    full = loc.expand(eb + tuple(loc.shape[nb:]))
    invariants(big, full, len(eb), "expanded")
    draws(big, full, q["sample"], q["as"], "expanded")
    far = dst.Dirac(leaf, nb, q["validate"]).expand(pt.Size(eb)).rsample(pt.Size(q["sample"]))
    check(far.requires_grad, "the sample of the expanded law does not depend on the location")
    wgt = tens(q["seed"], 4, tuple(far.shape), "normal", 1., dt)
    g, = pt.autograd.grad((far * wgt).sum(), [leaf])
    ref = loc.double().clone().requires_grad_(True)
    want, = pt.autograd.grad((ref.expand(far.shape) * wgt.double()).sum(), [ref])
    close(g, want, "gradient through the sample of the expanded law", rtol=1e-5, atol=1e-3 if q["dtype"] == "f32" else 1e-10)
    for A, at, what in ((D, loc, "location"), (big, full, "expanded")):
        sup = A.enumerate_support()
        has_shape(sup, (1,) + tuple(at.shape), f"{what}: support")
        same(sup[0], at, f"{what}: support")
        check(bool((pt.as_tensor(A.entropy()) == -INF).all()), f"{what}: entropy {A.entropy()} of a point mass")
        check(bool((pt.as_tensor(A.perplexity()) == 0.).all()), f"{what}: perplexity {A.perplexity()} of a point mass")
    same(D.loc, keep, "location after use")
    invariants(D, loc, nb, "location after expansion")
    ctx.tag(f"dim{loc.dim()}nb{nb}")
    return True


def logprob(q, ctx):
    dt = DTYPES[q["dtype"]]
    loc = tens(q["seed"], 1, tuple(q["shape"]), q["style"], 1., dt)
    nb = min(q["nb"], loc.dim() - 1)
    D = dst.Dirac(loc, nb, q["validate"])
    v = loc.expand(tuple(q["sample"]) + tuple(loc.shape)).clone()
    lp = to_np(D.log_prob(v), "log-density")
    check(lp.size >= 1 and (lp == 0.).all(), f"log-density {lp} at the location")
    r = rng(q["seed"], 5)
    how = q["how"]
    flat = v.reshape(-1)
    if how == "ulp":
        i = int(r.integers(0, flat.numel()))
        flat[i] = pt.nextafter(flat[i], pt.tensor(q["delta"] * INF, dtype=dt))
    elif how == "nan":
        if q["validate"] is not False:
            return False
        flat[int(r.integers(0, flat.numel()))] = float("nan")
    elif how == "one":
        i = int(r.integers(0, flat.numel()))
        flat[i] += q["delta"] * (1. + abs(float(flat[i])))
    elif how == "all":
        flat += q["delta"] * (1. + float(flat.abs().max()))
    else:       # differences cancelling each other
        if flat.numel() < 2:
            return False
        t = q["delta"] * (1. + float(flat.abs().max()))
        flat[0] += t
        flat[-1] -= t
    ctx.tag(how)
    lp = to_np(D.log_prob(flat.reshape(v.shape)), "log-density")
    check((lp == -INF).any(), f"log-density {lp} away from the location")
    if lp.ndim == 0 or how == "all":
        check((lp == -INF).all(), f"log-density {lp} away from the location")
    return True


BASE = dict(seed=SEED, shape=st.lists(st.integers(1, 4), min_size=1, max_size=6), nb=st.integers(0, 5),
            style=st.sampled_from(STYLES), dtype=st.sampled_from(["f64", "f32"]),
            validate=st.sampled_from([None, True, False]), sample=SHAPES)
CASES = [
    Case("dirac", fixed(expand=SHAPES, grow=st.booleans(), **{"as": st.sampled_from(["size", "tuple", "list"])}, **BASE), dirac, 1500),
    Case("logprob", fixed(how=st.sampled_from(["one", "one", "all", "cancel", "ulp", "nan"]),
                          delta=st.sampled_from([1., -1., 1e-4, -1e-4, 50.]), **BASE), logprob, 1500),
]
