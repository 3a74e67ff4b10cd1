"""S02: densities, recentring and seeding of the samplers."""
import numpy as np
import torch as pt
from hypothesis import strategies as st

from skwdro.base.samplers.torch import PortfolioLaplaceSampler

from harness.core import Case, check, close, has_shape, same, to_np
from harness.dual import INF
from harness.gen import arr, dims, rng
from harness.laws import Spec, log_density, sampler_params

RULE = ("Generated samplers of every kind, evaluated at points drawn by them, near and far from the centre; "
        "non-trivial when the density is finite and varies over the points (densities) or when draws are compared.")


def points(q, s, x, y, key=0):
    """Sample-shaped points around (x, y) from our own generator."""
    n, m = q["n"], x.shape[0]
    tr = s.data_law["tril"]
    z = x.double() + pt.tensor(arr(q["seed"], 400 + key, (n, m, q["d"]), "normal", q["far"]) @ tr.T)
    w = None
    if s.labelled:
        ll = s.label_law
        if ll["kind"] == "fixed":
            w = y.double().expand(n, m, q["dl"]).clone()
        elif ll["kind"] == "switch":
            sg = np.where(rng(q["seed"], 500 + key).random((n, m, q["dl"])) < .5, -1., 1.)
            if ll["p"] in (0., 1.):
                sg = np.full_like(sg, 1. - 2 * ll["p"])
            w = y.double() * pt.tensor(sg)
        else:
            w = y.double() + pt.tensor(arr(q["seed"], 500 + key, (n, m, q["dl"]), "normal", q["far"]) @ ll["tril"].T)
    return z.to(s.dt), None if w is None else w.to(s.dt)


def reference(s, x, y, z, w):
    v = log_density(s.data_law, x, z)
    if s.labelled and s.label_law["kind"] != "fixed":
        v = v + log_density(s.label_law, y, w)
    return v


def tol(q, s, x, y, z, w):
    """Rounding: residuals are formed from values of magnitude |x|+|z|."""
    e = 2e-7 if s.dt == pt.float32 else 4e-16
    t = 0.
    for law, c, v in ((s.data_law, x, z), (s.label_law, y, w)):
        if law is None or "tril" not in law:
            continue
        inv = np.abs(np.linalg.inv(law["tril"])).max()
        mag = float(c.abs().max() + v.abs().max())
        r = float((v - c).abs().max()) * inv
        dd = v.shape[-1]
        t += 8 * e * dd * dd * (r + 1) * (inv * mag + r + 1) + 8 * e * dd
        if s.q["form"] in ("cov", "prec"):
            t += 200 * e * dd * dd * (r + 1) ** 2
        if s.kind == "nn" and s.q["lform"] in ("cov", "prec"):
            t += 200 * e * dd * dd * (r + 1) ** 2
    return t + 1e-12 + (1e-5 if s.dt == pt.float32 else 1e-6 * (s.label_law is not None and s.label_law["kind"] == "switch"))


def compare(q, s, lp_of, x, y, z, w, what):
    n, m = q["n"], x.shape[0]
    lp = lp_of(z, w)
    has_shape(lp, (n, m, 1), what)
    t = tol(q, s, x, y, z, w)
    if s.label_law is not None and s.label_law["kind"] == "switch":
        # densities of the switched labels are defined up to a constant per label value
        base = y.expand_as(w).to(w) * (1. if s.label_law["p"] < 1 else -1.)
        got = to_np(lp, what) - to_np(lp_of(z, base), what)
        want = reference(s, x, y, z, w) - reference(s, x, y, z, base)
        close(got, want, f"{what}: change when labels switch", rtol=1e-6, atol=t)
        zc = x.expand_as(z).to(z)
        got = to_np(lp, what) - to_np(lp_of(zc, w), what)
        want = reference(s, x, y, z, w) - reference(s, x, y, zc, w)
        close(got, want, f"{what}: change when the data move", rtol=1e-6, atol=2 * t)
    else:
        close(lp, reference(s, x, y, z, w), what, rtol=1e-6 if s.dt == pt.float32 else 1e-10, atol=t)


def density(q, ctx):
    s = Spec(q)
    x, y = s.centre()
    sampler = s.build(x, y)
    z, w = points(q, s, x, y)
    ctx.tag(s.kind)
    compare(q, s, sampler.log_prob, x, y, z, w, "log-density")
    # recentred, centre given per point or with a samples dimension
    x2, y2 = s.centre(2)
    z2, w2 = points(q, s, x2, y2, 1)
    a, b = (x2, y2) if q["flat"] else (x2.unsqueeze(0), None if y2 is None else y2.unsqueeze(0))
    compare(q, s, lambda zz, ww: sampler.log_prob_recentered(a, b, zz, ww), x2, y2, z2, w2,
            "recentred log-density")
    # the recentring is not a move
    compare(q, s, sampler.log_prob, x, y, z, w, "log-density after recentring")
    if s.labelled and s.label_law["kind"] == "fixed":
        off = w + 1.
        lp = to_np(sampler.log_prob(z, off), "log-density off the labels")
        check((lp == -INF).all(), "finite log-density for labels that cannot be drawn")
        ctx.tag("fixed")
    return q["n"] * q["m"] > 1


def moved(q, ctx):
    s = Spec(q)
    x, y = s.centre()
    sampler = s.build(x, y, seed=q["sd"])
    sampler.sample(2)
    for j in range(q["moves"]):
        x, y = s.centre(10 + j, q["ms"][j])
        sampler.reset_mean(x, y)
    m = x.shape[0]
    fresh = s.build(x, y, seed=None)
    z, w = points(q, s, x, y, 2)
    t = tol(q, s, x, y, z, w)
    close(sampler.log_prob(z, w), fresh.log_prob(z, w), "log-density after a move", rtol=1e-6, atol=2 * t)
    compare(q, s, sampler.log_prob, x, y, z, w, "log-density after a move")
    pt.manual_seed(77)
    a, al = sampler.sample(q["n"])
    pt.manual_seed(77)
    b, bl = fresh.sample(q["n"])
    at = (1e-5 if s.dt == pt.float32 else 1e-9) * (1 + q["sigma"] + float(x.abs().max()))
    has_shape(a, (q["n"], m, q["d"]), "draws after a move")
    close(a, b, "draws after a move against a fresh sampler", rtol=0., atol=at)
    if s.labelled:
        close(al, bl, "labels after a move against a fresh sampler", rtol=0.,
              atol=(1e-5 if s.dt == pt.float32 else 1e-9) * (1 + q["lsigma"] + q["sigma"] * 8 + float(y.abs().max())))
    check(bool(sampler.produces_labels) == s.labelled, "produces_labels after a move")
    ctx.tag(s.kind)
    return True


def seeding(q, ctx):
    s = Spec(q)
    x, y = s.centre()
    n = q["n"] + 5
    one = s.build(x, y, seed=q["sd"])
    a = [one.sample(n) for _ in range(2)]
    pt.rand(3)      # an unrelated consumer in between
    two = s.build(x, y, seed=q["sd"])
    b = [two.sample(n) for _ in range(2)]
    for (u, ul), (v, vl) in zip(a, b):
        same(u, v, "draws with equal seeds")
        if s.labelled:
            same(ul, vl, "labels with equal seeds")
    check(not np.array_equal(to_np(a[0][0]), to_np(a[1][0])), "successive draws are equal")
    # moving keeps the stream going
    mv = s.build(x, y, seed=q["sd"])
    first = to_np(mv.sample(n)[0]) - to_np(x)
    res = [first]
    for j in range(2):
        x2, y2 = s.centre(20 + j)
        mv.reset_mean(x2, y2)
        res.append(to_np(mv.sample(n)[0]) - to_np(x2))
    tiny = 1e-3 * q["sigma"]
    for i in range(3):
        for j in range(i):
            check(np.abs(res[i] - res[j]).max() > tiny, "moving the sampler restarted its random stream")
    mv = s.build(x, y, seed=q["sd"])
    mv.sample(n)
    x2, y2 = s.centre(25, q["m2"])
    mv.reset_mean(x2, y2)
    late = to_np(mv.sample(n)[0])
    check(np.abs(late - to_np(s.build(x2, y2, seed=q["sd"]).sample(n)[0])).max() > tiny,
          "moving the sampler to data of another size restarted its random stream")
    other = s.build(x, y, seed=q["sd"] + 1)
    check(not np.array_equal(to_np(other.sample(n)[0]), to_np(a[0][0])), "the seed is ignored")
    # no seed: the global stream is left where it is
    pt.manual_seed(5)
    r1 = pt.rand(4)
    pt.manual_seed(5)
    s.build(x, y, seed=None)
    same(pt.rand(4), r1, "random stream after building a sampler without seed")
    return True


def heavy(q, ctx):
    """The long-tailed portfolio sampler moves like the others."""
    s = Spec(q)
    x, _ = s.centre()
    a = PortfolioLaplaceSampler(x, seed=q["sd"], **s.kw)
    b = PortfolioLaplaceSampler(x, seed=q["sd"], **s.kw)
    same(b.sample(q["n"])[0], PortfolioLaplaceSampler(x, seed=q["sd"], **s.kw).sample(q["n"])[0], "draws with equal seeds")
    at = (1e-4 if s.dt == pt.float32 else 1e-9) * (1 + q["sigma"] + float(x.abs().max()) + q["shift"])
    for j in range(2):
        x2, _ = s.centre(30 + j, q["m2"])
        a.reset_mean(x2, None)
        fresh = PortfolioLaplaceSampler(x2, seed=None, **s.kw)
        pt.manual_seed(q["sd"])
        u, ul = a.sample(q["n"])
        pt.manual_seed(q["sd"])
        v, vl = fresh.sample(q["n"])
        check(ul is None and vl is None, "labels from an unlabelled sampler")
        has_shape(u, (q["n"], q["m2"], q["d"]), "draws after a move")
        close(u, v, "draws after a move against a fresh sampler", rtol=0., atol=at)
        check(bool((u != x2).any()), "the sampler does not spread")
    return True


CASES = [
    Case("heavy", sampler_params(kinds=["port"], n=dims(1, 6, 60), sd=st.integers(0, 10**6), m2=dims(1, 4, 60), tails=(60, 20, 6)), heavy, 100),
    Case("density", sampler_params(n=dims(1, 6, 60), tails=(60, 20, 6), far=st.sampled_from([1., .1, 5., 0.]), flat=st.booleans()),
         density, 2400),
    Case("moved", sampler_params(n=dims(1, 6, 60), tails=(60, 20, 6), far=st.sampled_from([1., .1, 5.]), sd=st.integers(0, 10**6),
                                 moves=st.integers(1, 3), ms=st.lists(dims(1, 5, 70), min_size=3, max_size=3)),
         moved, 900),
    Case("seeding", sampler_params(n=dims(1, 6, 60), m2=dims(1, 6, 70), sd=st.one_of(st.integers(0, 2**31 - 2), st.sampled_from([0, 0, 1, 42])), tails=(60, 20, 6)), seeding, 700),
]
