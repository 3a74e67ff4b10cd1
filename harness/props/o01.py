"""O01: the stopping criterion against a reference monitor."""
import torch as pt
from hypothesis import strategies as st

from skwdro.solvers.optim_cond import OptCondTorch

from harness.core import Case, Violation, check, must_raise
from harness.dual import INF, DualPostSampledLoss, DualPreSampledLoss, Problem
from harness.gen import SEED, dims, fixed, rng

RULE = ("Generated configurations and sequences of optimisation states (parameters, gradients, multiplier) on real "
        "robust losses; non-trivial when at least one state stops and one does not.")

AND = ["both", "theta_and_lambda", "t&l", "lambda_and_theta", "l&t"]
OR = ["one", "theta_or_lambda", "tUl", "lambda_or_theta", "lUt"]
T = ["theta", "t"]
L = ["lambda", "l"]


def vnorm(v, order):
    v = v.abs().double()
    if order == INF:
        return float(v.max())
    return float((v ** order).sum() ** (1. / order))


class Part:
    """Reference for one monitored part; None means too close to call."""

    def __init__(self, q, tol, order):
        self.q, self.tol, self.order = q, tol, order
        self.ref, self.prev, self.count, self.round = None, None, 0, 0.

    def step(self, value, grad):
        self.count += 1
        if self.tol <= 0:
            return False
        if self.q["metric"] == "grad":
            new = vnorm(grad, self.order)
            if self.count == 1:
                self.ref = new
                return False
        else:
            prev, self.prev = self.prev, value.clone()
            if self.count == 1:
                return False
            new = vnorm(value - prev, self.order)
            self.round = 1e-15 * float(value.abs().max()) * value.numel()
            if self.count == 2:
                self.ref = new
                return False
        bound = self.tol * (self.ref if self.q["mode"] == "rel" else 1.)
        if new == 0. and bound == 0.:
            return False
        if abs(new - bound) <= 1e-4 * max(new, bound) + self.round * (1 + self.tol):
            return None
        return new < bound


def combine(mon, t, l):
    if mon in T:
        return t
    if mon in L:
        return l
    if mon in AND:
        if t is False or l is False:
            return False
        return None if t is None or l is None else True
    if t is True or l is True:
        return True
    return None if t is None or l is None else False


def order_of(o):
    return INF if o == "inf" else float(o)


def problem(q):
    n_iter = q["budget"] if q["single"] else (q["warm"], q["budget"])
    p = dict(kind=q["kind"], seed=q["seed"], m=2, n=2, d=q["d"], k=2, dtype="f64", rho=.1, eps=.1, lam=1., cid="NLC",
             p=2., power=2., kappa=1., reduction="mean", xstyle="normal", zstyle="around", wscale=1., l2=None)
    return Problem(p, cls=DualPostSampledLoss if q["post"] else DualPreSampledLoss, n_iter=n_iter)


def states(q, P, run):
    """Set successive states on the loss."""
    ps = list(P.primal.parameters())
    base = [rng(q["seed"], run, 50 + i).standard_normal(p.shape) for i, p in enumerate(ps)]
    amp = q["amps"][run]
    lamp = q["lamps"][run]
    cur = [pt.tensor(b) for b in base]
    lam = 1.
    r = rng(q["seed"], run, 3)
    for i in range(len(amp)):
        ds, gs = ([pt.tensor(r.standard_normal(p.shape)) for p in ps] for _ in range(2))
        if q.get("sharp"):
            ds, gs = ([v / vnorm(pt.cat([w.reshape(-1) for w in vs]), order_of(q["order"])) for v in vs] for vs in (ds, gs))
        for j, p in enumerate(ps):
            cur[j] = cur[j] + amp[i] * ds[j]
            with pt.no_grad():
                p.copy_(cur[j])
            p.grad = (amp[i] * gs[j]).to(p)
        lam = lam + lamp[i] * (1. if q.get("sharp") or r.random() < .5 else -.4)
        with pt.no_grad():
            P.robust.lam.fill_(max(lam, 0.))
        P.robust.lam.grad = pt.full_like(P.robust.lam.detach(), lamp[i] * (1. if r.random() < .5 else -1.))
        yield (pt.cat([p.detach().reshape(-1).double() for p in ps]),
               pt.cat([p.grad.reshape(-1).double() for p in ps]),
               P.robust.lam.detach().reshape(-1).double().clone(), P.robust.lam.grad.reshape(-1).double().clone())


def make(q):
    return OptCondTorch(q["order"], q["tt"], q["tl"], monitoring=q["mon"], mode=q["mode"], metric=q["metric"])


def follow(q, P, cond, run, where, ctx):
    pt_, pl = Part(q, q["tt"], order_of(q["order"])), Part(q, q["tl"], 1.)
    yes = no = 0
    for i, (th, g, lam, lg) in enumerate(states(q, P, run)):
        it = q["start"] + i * q["stride"]
        # parts that are not monitored are not looked at
        want = combine(q["mon"], pt_.step(th, g), pl.step(lam, lg))
        over = q["budget"] > 0 and it >= q["budget"]
        got = cond(P.robust, it)
        if over:
            want = True
            ctx.tag("budget")
        if want is None:
            ctx.tag("too close to call")
            continue
        check(bool(got) == want, f"{where}, state {i} (iteration {it}): {'stopped' if got else 'went on'} although the "
              f"condition is {'not ' if not want else ''}met")
        yes, no = yes + want, no + (not want)
    return yes and no


def sequence(q, ctx):
    P = problem(q)
    cond = make(q)
    nt = follow(q, P, cond, 0, "first run", ctx)
    if q["again"]:
        cond.reset()
        if q["budget2"] is not None:
            q = dict(q, budget=q["budget2"], single=not q["single"])
            P = problem(q)
            ctx.tag("another loss")
        nt2 = follow(q, P, cond, 1, "second run", ctx)
        nt = nt or nt2
        ctx.tag("reused")
    ctx.tag("T" if q["mon"] in T else "L" if q["mon"] in L else "AND" if q["mon"] in AND else "OR")
    ctx.tag(f"{q['metric']}/{q['mode']}")
    return nt


def sharp(q, ctx):
    """Progress just below and just above the tolerance."""
    q = dict(q, sharp=True)
    for key, tol in (("amps", "tt"), ("lamps", "tl")):
        q[key] = [[q["first"] if i < 2 else q[tol] * f * (q["first"] if q["mode"] == "rel" else 1.) for i, f in enumerate(run)]
                  for run in q[key]]
    return sequence(q, ctx)


def independent(q, ctx):
    """Two monitors fed alternately do not influence each other."""
    P1, P2 = problem(q), problem(dict(q, seed=q["seed"] ^ 1))
    c1, c2 = make(q), make(q)
    alone = []
    for i, _ in enumerate(states(q, P1, 0)):
        alone.append(bool(c1(P1.robust, 0)))
    c1 = make(q)
    s1, s2 = states(q, P1, 0), states(q, P2, 1)
    for i, (a, b) in enumerate(zip(s1, s2)):
        got = bool(c1(P1.robust, 0))
        c2(P2.robust, 0)
        check(got == alone[i], f"state {i}: the decision depends on another run")
    return any(alone)


def invalid(q, ctx):
    bad = q["bad"]
    ctx.tag(bad)
    errs = (ValueError, AssertionError)
    kw = dict(monitoring=q["mon"], mode=q["mode"], metric=q["metric"])
    order = q["order"]
    if bad == "order":
        must_raise(errs, lambda: OptCondTorch(q["badorder"], 1e-3, 1e-3, **kw), f"order {q['badorder']!r}")
        return True
    if bad == "none":
        # no gradients to look at
        P = problem(q)
        c = OptCondTorch(order, 1e-3, 1e-3, monitoring="theta", mode=q["mode"], metric="grad")
        must_raise((ValueError,), lambda: c(P.robust, 0), "model without gradients")
        return True
    kw[bad] = q["word"]

    def use():
        P = problem(dict(q, amps=[[1.] * 4], lamps=[[1.] * 4]))
        c = OptCondTorch(order, 1e-3, 1e-3, **kw)
        for _ in states(dict(q, amps=[[1.] * 4], lamps=[[1.] * 4]), P, 0):
            c(P.robust, 0)
    must_raise(errs, use, f"{bad}={q['word']!r}")
    return True


LEVEL = st.sampled_from([1., .5, .1, .02, 1e-3, 1e-5, 0., 3., 1e-9, 1e-12])
AMP = st.one_of(*[st.lists(LEVEL, min_size=3, max_size=8)] * 6, st.lists(LEVEL, min_size=12, max_size=40))
FACTOR = st.lists(st.sampled_from([.9, .95, .99, .999, 1.001, 1.01, 1.05, 1.1, .7, 1.4]), min_size=8, max_size=8)
MON = st.one_of(st.sampled_from(AND), st.sampled_from(OR), st.sampled_from(T), st.sampled_from(L))
TOL = st.sampled_from([.5, .1, 1e-2, 1e-3, 1e-4, 2., 0., -1., 1e-8, 1e-11, 1e-14])
BASE = dict(seed=SEED, kind=st.sampled_from(["mse", "mlp", "quad", "newsvendor", "mse_multi"]), d=dims(1, 4, 60),
            post=st.booleans(), mon=MON, mode=st.sampled_from(["rel", "abs"]), metric=st.sampled_from(["grad", "param"]),
            order=st.sampled_from([1, 2, 3, "inf", 2., 1.5, 5, 8, 12]), tt=TOL, tl=TOL, warm=st.integers(1, 3),
            single=st.booleans())
CASES = [
    Case("sequence", fixed(amps=st.lists(AMP, min_size=2, max_size=2), lamps=st.lists(AMP, min_size=2, max_size=2),
                           again=st.booleans(), budget2=st.sampled_from([None, 4, 6, 1000, 0, 1]), start=st.integers(0, 3), stride=st.sampled_from([1, 1, 2]),
                           budget=st.sampled_from([0, 1, 2, 3, 5, 7, 1000, 1000, 1000, 1000, 1000, 1000]), **BASE)
         .map(lambda q: dict(q, amps=q["amps"], lamps=[(q["lamps"][i] * 14)[:len(q["amps"][i])] for i in range(2)])),
         sequence, 1500),
    Case("sharp", fixed(amps=st.lists(FACTOR, min_size=2, max_size=2), lamps=st.lists(FACTOR, min_size=2, max_size=2), again=st.booleans(),
                        budget2=st.none(), start=st.just(0), stride=st.just(1), budget=st.just(1000), first=st.sampled_from([1., 3., .1]),
                        **{**BASE, "tt": st.sampled_from([.5, .1, 1e-2, 1e-5, 2., 1e-11]),
                           "tl": st.sampled_from([.5, .1, 1e-2, 1e-5, 2., 1e-11])}), sharp, 400),
    Case("independent", fixed(amps=st.lists(AMP, min_size=2, max_size=2), lamps=st.lists(AMP, min_size=2, max_size=2),
                              budget=st.just(1000), **BASE)
         .map(lambda q: dict(q, lamps=[(q["lamps"][i] * 14)[:len(q["amps"][i])] for i in range(2)])),
         independent, 400),
    Case("invalid", fixed(bad=st.sampled_from(["order", "monitoring", "mode", "metric", "none"]),
                          badorder=st.sampled_from([0, -1, "one", "2", -.5, "INF"]),
                          word=st.sampled_from(["foo", "", "BOTH", "Theta", "relative", "gradient", "t|l"]),
                          budget=st.just(100), **BASE), invalid, 300, 1500),
]
