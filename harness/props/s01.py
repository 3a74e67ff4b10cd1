"""S01: laws of the samplers."""
import math

import numpy as np
import torch as pt
from hypothesis import strategies as st
from scipy import stats

from skwdro.base.samplers.torch import PortfolioLaplaceSampler

from harness import known
from harness.core import Case, check, has_shape, same, to_np
from harness.gen import SEED, dims, fixed, tens
from harness.laws import Spec, sampler_params

RULE = ("Generated samplers of every kind and parametrisation, thousands of draws each; every evaluation compares "
        "empirical moments, correlations and distribution functions with the prescribed law, at thresholds crossed "
        "with probability below 1e-10 by a right sampler.")
ASSUMPTIONS = ["torch's pseudo-random generator behaves as independent uniform draws at the sample sizes used"]
Z = 6.8     # two-sided normal tail 1e-11
P = 1e-11


def zscore(v, mean, sd, what):
    z = abs(v - mean) / sd
    check(np.all(z < Z), f"{what}: {float(np.max(z)):.1f} standard errors away")


def white(law, z, c):
    """Residuals with independent standard coordinates."""
    r = z - c
    if law["kind"] == "laplace":
        return r / law["scale"]
    tr = law["tril"]
    return np.linalg.solve(tr, r.reshape(-1, r.shape[-1]).T).T.reshape(r.shape)


def continuous(law, z, c, what, ctx):
    """z (n, m, d) drawn around c (m, d)."""
    u = white(law, z, c)
    n, m, d = u.shape
    lap = law["kind"] == "laplace"
    v, k4 = (2., 24.) if lap else (1., 3.)
    sv = math.sqrt(k4 - v * v)      # sd of u^2
    ctx.tag(law["kind"])
    zscore(u.mean(0), 0., math.sqrt(v / n), f"{what}: mean of a point's draws")
    zscore((u * u).mean(), v, sv / math.sqrt(n * m * d) * (1.5 if lap else 1.), f"{what}: variance")
    zscore((u * u).mean(0), v, sv / math.sqrt(n) * (2. if lap else 1.2), f"{what}: variance of a point's draws")
    zscore(u.mean(), 0., math.sqrt(v / (n * m * d)), f"{what}: mean")
    cdf = (lambda t: stats.laplace.cdf(t)) if lap else stats.norm.cdf
    check(stats.kstest(u.ravel(), cdf).pvalue > P, f"{what}: distribution is not {law['kind']}")
    # independence: distinct coordinates, points, successive draws
    f = u.reshape(n, m * d)
    co = f.T @ f / n / v
    off = co[~np.eye(m * d, dtype=bool)]
    if off.size:
        zscore(off, 0., 1 / math.sqrt(n) * (1.3 if lap else 1.1), f"{what}: correlation between points or coordinates")
    for lag in sorted({1, 2, n // 4, n // 3, n // 2, (n + 1) // 2}):
        zscore((u[lag:] * u[:-lag]).mean() / v, 0., 1 / math.sqrt((n - lag) * m * d) * 1.2, f"{what}: correlation of draws {lag} apart")
    h = n // 2
    zscore((u[:h] * u[::-1][:h]).mean() / v, 0., 1 / math.sqrt(h * m * d) * 1.2, f"{what}: correlation of mirrored draws")
    # draws that coincide only because single precision is coarse around c
    coarse = n * np.spacing(np.float32(np.abs(z).max())) / (law["scale"] if lap else law["tril"][0, 0]) / 7
    check(np.unique(u[..., 0]).size > n * m * (.9 * (1 if n * m < 1e4 else .5) - 2 * coarse), f"{what}: repeated draws")
    return u


def draw(sampler, n, by):
    """n draws at once, or by calls for a given number of them (1: sampling,
    -1: iterating)."""
    if not by:
        return sampler.sample(n)
    if by < 0:
        it = iter(sampler)
        got = [next(it) for _ in range(n)]
    else:
        got = [sampler.sample(min(by, n - i)) for i in range(0, n, by)]
    z, w = zip(*got)
    check(all((a is None) == (w[0] is None) for a in w), "labels in some draws only")
    return pt.cat(z), None if w[0] is None else pt.cat(w)


def law(q, ctx):
    s = Spec(q)
    n = q["n"]
    x, y = s.centre()
    sampler = s.build(x, y, seed=q["seed"] % 2**31)
    check(bool(sampler.produces_labels) == s.labelled, "produces_labels")
    ctx.tag(s.kind)
    if q["moved"]:
        m2 = q["m2"]
        x, y = s.centre(1, m2)
        sampler.reset_mean(x, y)
        ctx.tag("moved")
    m = x.shape[0]
    z, w = draw(sampler, n, q.get("by", 0))
    ctx.tag(f"by{q.get('by', 0)}")
    has_shape(z, (n, m, q["d"]), "data samples")
    Zs, X = to_np(z, "samples"), to_np(x)
    check(np.isfinite(Zs).all(), "non-finite samples")
    u = continuous(s.data_law, Zs, X, "data", ctx)
    if not s.labelled:
        check(w is None, "labels from an unlabelled sampler")
        return True
    has_shape(w, (n, m, q["dl"]), "label samples")
    W, Y = to_np(w, "labels"), to_np(y)
    ll = s.label_law
    if ll["kind"] == "fixed":
        same(W, np.broadcast_to(Y, W.shape), "labels that must not move")
        ctx.tag("fixed labels")
        return True
    if ll["kind"] == "switch":
        p = ll["p"]
        check(((W == Y) | (W == -Y)).all(), "a label is neither kept nor switched")
        sw = (W != Y).astype(float)
        ctx.tag("switch")
        if p in (0., 1.):
            check((sw == p).all(), f"labels switched with probability {sw.mean()} instead of {p}")
            return True
        pool = stats.binomtest(int(sw.sum()), sw.size, p).pvalue
        check(pool > P, f"labels switched with frequency {sw.mean():.4f} instead of probability {p}")
        for f in sw.reshape(n, -1).T:
            check(stats.binomtest(int(f.sum()), n, p).pvalue > P, f"a label switched with frequency {f.mean():.4f} "
                  f"instead of probability {p}")
        r = (sw - p) / math.sqrt(p * (1 - p))
    else:
        r = continuous(ll, W, Y, "labels", ctx)
    # labels do not depend on the data noise
    v = 2. if s.data_law["kind"] == "laplace" else 1.
    vl = 2. if ll["kind"] == "laplace" else 1.
    co = u.reshape(n, -1).T @ r.reshape(n, -1) / n / math.sqrt(v * vl)
    zscore(co, 0., 1.3 / math.sqrt(n), "correlation between labels and data")
    return True


def forms(q, ctx):
    """Different descriptions of one covariance give the same law, in the same draws."""
    ref, rl = None, None
    for form in ("tril", "cov", "prec"):
        s = Spec(dict(q, form=form, lform=form, dtype="f64"))
        x, y = s.centre()
        z, w = s.build(x, y, seed=7).sample(q["n"])
        Zs = to_np(z, "samples")
        C = s.data_law["tril"] @ s.data_law["tril"].T
        emp = np.einsum("nmi,nmj->ij", Zs - to_np(x), Zs - to_np(x)) / (q["n"] * q["m"])
        sd = np.sqrt((np.outer(np.diag(C), np.diag(C)) + C * C) / (q["n"] * q["m"]))
        zscore(emp, C, 1.2 * sd, f"covariance when given as {form}")
        ctx.tag(form)
    return True


def iterate(q, ctx):
    """Iterating gives single draws; any number of draws can be requested."""
    s = Spec(q)
    x, y = s.centre()
    sampler = s.build(x, y, seed=3)
    z, w = next(iter(sampler))
    has_shape(z, (1, q["m"], q["d"]), "iterated data sample")
    z, w = sampler.sample(q["k"])
    has_shape(z, (q["k"], q["m"], q["d"]), "data samples")
    if s.labelled:
        has_shape(w, (q["k"], q["m"], q["dl"]), "label samples")
    else:
        check(w is None, "labels from an unlabelled sampler")
    check(z.dtype == x.dtype, f"samples in {z.dtype} around data in {x.dtype}")
    return True


def laplace_law(q, ctx):
    x = tens(q["seed"], 1, (1, 1), dtype=pt.float32)
    z, _ = PortfolioLaplaceSampler(x, sigma=1., seed=0).sample(20000)
    u = to_np(z - x).ravel()
    check(stats.kstest(u, stats.norm.cdf).pvalue < 1e-6, "the samples are Gaussian")
    return True


known.PROBES["laplace_law"] = Case("laplace_law", fixed(seed=SEED), laplace_law, 1)
CASES = [
    Case("law", sampler_params(n=st.sampled_from([8000, 20000]), moved=st.booleans(), m2=dims(1, 4, 12), tails=(12, 12, 6)), law, 700, 6000),
    Case("calls", sampler_params(n=st.just(3000), moved=st.booleans(), m=st.integers(1, 60), m2=st.integers(1, 60), by=st.sampled_from([1, -1, 2, 3, 10, 64, 300, 1000]), tails=(60, 5, 3)), law, 150, 1500),
    Case("forms", sampler_params(kinds=["nn", "nid", "nber", "news", "port"], n=st.just(12000)), forms, 150, 1500),
    Case("iterate", sampler_params(k=dims(1, 7, 150), tails=(80, 40, 12)), iterate, 300, 1500),
]
