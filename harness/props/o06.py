"""O06: the entropic solver against the same training run written by hand."""
import math
import warnings

import numpy as np
import torch as pt
from hypothesis import strategies as st

from skwdro.base.problems import EmpiricalDistributionWithLabels
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.torch import robustify

from harness.core import Case, check, close, to_np
from harness.gen import fixed, tens
from harness.props.o03 import COMMON, Run

RULE = ("Generated robust losses trained by the solver and, built again from the same seed, by a loop written by hand "
        "with the loss's optimiser; non-trivial when both warm-up or robust steps moved the parameters.")


def optimiser(r, q):
    """Replace the optimiser by the user's own, when asked to."""
    own = q["own"]
    if own is None:
        return
    par = [p for p in r.robust.parameters() if p.requires_grad]
    lr = q["step"]
    r.robust.optimizer = {"sgd": lambda: pt.optim.SGD(par, lr=lr, momentum=.5), "adam": lambda: pt.optim.Adam(par, lr=lr),
                          "lbfgs": lambda: pt.optim.LBFGS(par, lr=lr, max_iter=2)}[own]()


def multiplier(rob):
    """The multiplier parameter: the only one the model does not own."""
    mine = {id(p) for p in rob.primal_loss.parameters()}
    out = [p for p in rob.parameters() if id(p) not in mine and p.requires_grad]
    return out


def by_hand(r, q, n_warm, n_train):
    rob, x = r.robust, pt.tensor(r.x)
    y = None if r.y is None else pt.tensor(r.y)
    opt, cond = rob.optimizer, r.cond()
    lam = multiplier(rob)
    zeta = (None, None) if q["post"] else rob.generate_zetas()
    values = []

    def evaluate():
        opt.zero_grad()
        v = rob(x, y, *zeta)
        v.backward()
        return v.item()

    def step():
        v = None
        if q["post"]:
            v = evaluate()
            opt.step()
        else:
            opt.step(evaluate)
        with pt.no_grad():
            for p in lam:
                p.clamp_(min=0.)
        return v

    rob.erm_mode = True
    for _ in range(n_warm):
        step()
    warmed = [p.detach().clone() for p in rob.primal_loss.parameters()]
    rob.get_initial_guess_at_dual(x, y)
    rob.erm_mode = False
    if hasattr(opt, "reset_lbd_state"):
        opt.reset_lbd_state()
    for i in range(n_train):
        v = step()
        if v is None:
            imp = rob.imp_samp
            rob.imp_samp = imp and cond.metric == "grad"
            v = evaluate()
            rob.imp_samp = imp
        values.append(v)
        if math.isnan(v) or cond(rob, i):
            break
    return warmed, values


def train(q, ctx):
    if q["own"] == "lbfgs" and q["post"]:
        # needs a closure, which fresh samples cannot give
        q = dict(q, own="adam")
    n_train = q["train"]
    n_warm = int(.3 * n_train) if q["single"] else q["warm"]
    a = Run(q)
    optimiser(a, q)
    a.solve()
    b = Run(q)
    optimiser(b, q)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        warmed, values = by_hand(b, q, n_warm, n_train)
    ref = [p.detach() for p in b.robust.primal_loss.parameters()]
    got = [p.detach() for p in a.robust.primal_loss.parameters()]
    if not values or not np.isfinite(values).all() or any(float(p.abs().max()) > 1e3 for p in ref if p.numel()):
        ctx.tag("diverged")
        return False
    ctx.tag(("post" if q["post"] else "pre") + f"/{q['own'] or q['adapt']}")
    for g, w in zip(got, ref):
        close(g, w, "parameters against the run by hand", rtol=1e-4, atol=1e-5)
    if q["rho"] > 0:
        close(np.ravel(to_np(a.res.dual_var, "multiplier")), b.robust.lam.detach().reshape(-1), "multiplier against the run by hand",
              rtol=1e-4, atol=1e-5)
    close(a.res.robust_loss, values[-1], "robust loss against the run by hand", rtol=1e-4, atol=1e-5)
    moved = [any(bool((u != v).any()) for u, v in zip(s, t)) for s, t in ((b.before, warmed), (warmed, ref))]
    ctx.tag(f"warm-up {'moved' if moved[0] else 'still'}, training {'moved' if moved[1] else 'still'}")
    if len(values) < n_train:
        ctx.tag("stopped early")
    check(not a.robust.erm_mode, "empirical-risk mode left on")
    return moved[0] or moved[1]


def diverge(q, ctx):
    """A NaN objective ends the training at once, with a warning."""
    def count(n):
        r = Run(dict(q, train=n, single=False, warm=q["warm"] % 3, own=None))
        par = list(r.robust.primal_loss.parameters())
        par = par[q["bad"] % len(par)]
        with pt.no_grad():
            par.view(-1)[q["bad"] % par.numel()] = math.nan
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            res = solve_dual_wdro(r.robust, r.dist, r.cond())
        check(math.isnan(float(res.robust_loss)), f"robust loss {res.robust_loss} from NaN weights")
        check(len(ws) > 0, "a training that diverged gave no warning")
        return r.steps
    a, b = count(1), count(q["train"] + 5)
    check(a == b, f"training went on after a NaN objective ({b} steps instead of {a})")
    return True


class Stop(OptCondTorch):
    """A criterion of the user's: says when to stop, and keeps what it was asked."""

    def __init__(self, at):
        super().__init__(2, 0., 0.)
        self.at, self.asked = at, []

    def __call__(self, loss, iteration):
        self.asked.append(iteration)
        return len(self.asked) > self.at


def criterion(q, ctx):
    """The criterion is asked after each robust step and its answer is followed."""
    n_train = q["train"]
    n_warm = int(.3 * n_train) if q["single"] else q["warm"]
    r, c = Run(q), Stop(q["at"])
    r.solve(c)
    if not math.isfinite(float(r.res.robust_loss)):
        ctx.tag("diverged")
        return False
    want = min(q["at"] + 1, n_train)
    check(c.asked == list(range(want)), f"criterion asked at iterations {c.asked} instead of the first {want}")
    check(r.steps == n_warm + want, f"{r.steps} steps instead of {n_warm} + {want}")
    ctx.tag("stopped" if want < n_train else "ran out")
    return True


class Infinite(pt.nn.Module):
    """Squared error whose value is infinite, with finite gradients."""
    reduction = "none"

    def forward(self, a, b):
        return (a - b) ** 2 + math.inf


def infinite(q, ctx):
    """Only NaN objectives end the training."""
    n_train, n_warm = q["train"], q["warm"]
    x, y = tens(q["seed"], 1, (q["m"], q["d"]), "normal", 1., pt.float32), tens(q["seed"], 2, (q["m"], 1), "normal", 1., pt.float32)
    pt.manual_seed(q["seed"] % 2 ** 31)
    net = pt.nn.Linear(q["d"], 1)
    first = [p.detach().clone() for p in net.parameters()]
    rob = robustify(Infinite(), net, pt.tensor(0.), x, y, post_sample=q["post"], n_samples=q["n"], seed=q["sseed"], epsilon=.1,
                    sigma=.1, n_iter=(n_warm, n_train), imp_samp=False)
    rob.optimizer = pt.optim.SGD([p for p in rob.parameters() if p.requires_grad], lr=1e-3)
    steps, step = [], rob.optimizer.step

    def counted(*a, **k):
        steps.append(1)
        return step(*a, **k)
    rob.optimizer.step = counted
    dist = EmpiricalDistributionWithLabels(m=q["m"], samples_x=x.numpy().copy(), samples_y=y.numpy().copy())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = solve_dual_wdro(rob, dist, Stop(10 ** 6))
    check(float(res.robust_loss) == math.inf, f"robust loss {res.robust_loss} of an infinite loss")
    check(len(steps) == n_warm + n_train, f"{len(steps)} steps instead of {n_warm + n_train} with an infinite objective")
    return any(bool((a != b).any()) for a, b in zip(first, net.parameters()))


CASES = [Case("criterion", fixed(at=st.integers(0, 50), **COMMON), criterion, 100, 900),
         Case("infinite", fixed(**COMMON), infinite, 30, 300),
         Case("diverge", fixed(bad=st.integers(0, 40), **COMMON), diverge, 60, 600),
         Case("train", fixed(own=st.sampled_from([None, None, "sgd", "adam", "lbfgs"]), step=st.sampled_from([1e-2, .1]), **COMMON),
              train, 200, 2500)]
