"""O02: hybrid and composite optimisers against the plain optimisers."""
import copy

import numpy as np
import torch as pt
from hypothesis import strategies as st
from prodigyopt import Prodigy
from mechanic_pytorch import mechanize

from skwdro.solvers.hybrid_opt import HybridAdam, HybridSGD
from skwdro.solvers.oracle_torch import CompositeOptimizer

from harness.core import Case, check, close, must_raise, to_np
from harness.gen import SEED, arr, dims, fixed, logf, rng

RULE = ("Groups of parameters with generated tags, values, gradients and optimiser settings stepped several times next "
        "to the plain optimiser; non-trivial when at least one parameter moved.")

TAGS = [[], ["mwu"], ["mwu_simplex"], ["non_neg"], ["max"], ["bound"], ["bound", "non_neg"]]
SHAPES = [[], [1], [3], [5], [2, 3], [], [1], [3], [5], [2, 3], [70], [8, 9], [2, 3, 4]]


def initial(q, gi, pi, tags, shape):
    r = rng(q["seed"], 7, gi, pi)
    if "mwu" in tags:
        a = np.exp(r.uniform(-3 if r.random() < .6 else -30, 3, size=shape))
    elif "mwu_simplex" in tags:
        a = r.uniform(.05, 1., size=shape) * (1. if r.random() < .6 else np.exp(r.uniform(-25, 0, size=shape)))
        if r.random() < .7 or q["skip"]:
            a = a / a.sum()
    elif "non_neg" in tags:
        a = np.abs(r.standard_normal(shape)) * (r.random(shape) < .7)
    else:
        a = r.standard_normal(shape) * 3.
    return pt.tensor(a, dtype=pt.float64)


def gradient(q, t, gi, pi, shape):
    r = rng(q["seed"], 8, t, gi, pi)
    g = r.standard_normal(shape)
    if q["gstyle"] == "huge":
        g = g * 10. ** r.uniform(0, 4, size=shape)
    elif q["gstyle"] == "sparse":
        g = g * (r.random(shape) < .5)
    return pt.tensor(g, dtype=pt.float64)


def settings_of(g, algo):
    kw = dict(lr=g["lr"])
    if algo == "sgd":
        if g["momentum"]:
            kw["momentum"] = g["momentum"]
            kw["nesterov"] = g["nesterov"]
    if g["wd"]:
        kw["weight_decay"] = g["wd"]
    return kw


def fwd(tags, p):
    if "mwu" in tags or "mwu_simplex" in tags:
        return p.log()
    return -p if "max" in tags else p.clone()


def bwd(tags, v):
    if "mwu" in tags:
        return v.exp()
    if "mwu_simplex" in tags:
        e = v.exp()
        return e / e.sum()
    if "max" in tags:
        return -v
    return v.clamp(min=0.) if "non_neg" in tags else v.clone()


def hybrid(q, ctx):
    algo, cls, plain = (("sgd", HybridSGD, pt.optim.SGD) if q["algo"] == "sgd"
                        else ("adam", HybridAdam, pt.optim.Adam))
    groups, refs, params, start = [], [], [], []
    for gi, g in enumerate(q["groups"]):
        ps = [pt.nn.Parameter(initial(q, gi, pi, g["tags"], s)) for pi, s in enumerate(g["shapes"])]
        groups.append({"params": ps, **settings_of(g, algo), **{t: True for t in g["tags"]}})
        ref = [pt.nn.Parameter(fwd(g["tags"], p.detach())) for p in ps]
        # one plain optimiser per group, working in the transformed space
        refs.append((ref, plain([{"params": ref, **settings_of(g, algo)}], lr=1e-3)))
        params.append(ps)
        start.append([p.detach().clone() for p in ps])
    opt = cls(groups, lr=1e-3)
    moved = False
    for t in range(q["steps"]):
        # huge gradients only make sense where the step is not exponentiated
        for gi, (g, ps) in enumerate(zip(q["groups"], params)):
            mult = "mwu" in g["tags"] or "mwu_simplex" in g["tags"]
            for pi, p in enumerate(ps):
                gr = gradient(q, t, gi, pi, p.shape)
                if mult:
                    gr = gr.clamp(-3., 3.)
                if q["skip"] and "bound" not in g["tags"] and rng(q["seed"], 9, t, gi, pi).random() < .3:
                    p.grad = refs[gi][0][pi].grad = None    # this parameter plays no role in this step
                    ctx.tag("no gradient")
                    continue
                p.grad = gr.clone()
                refs[gi][0][pi].grad = (gr.clamp(-100., 100.) if "bound" in g["tags"] else gr).clone()
        if q["closure"] and not any(set(g["tags"]) - {"non_neg"} for g in q["groups"]):
            # gradients are only there once the step asks for them
            late = [(p, p.grad) for ps in params for p in ps]
            for p, _ in late:
                p.grad = None

            def closure():
                for p, gr in late:
                    p.grad = gr
                return pt.tensor(1.)
            opt.step(closure)
            ctx.tag("closure")
        else:
            opt.step()
        for gi, (g, ps) in enumerate(zip(q["groups"], params)):
            ref, ropt = refs[gi]
            ropt.step()
            for pi, (p, r) in enumerate(zip(ps, ref)):
                with pt.no_grad():
                    want = bwd(g["tags"], r)
                    close(p, want, f"step {t}: parameter of a {g['tags'] or 'plain'} group", rtol=1e-9, atol=1e-11 if not {"mwu", "mwu_simplex"} & set(g["tags"]) else 1e-300)
                    moved |= bool((want - start[gi][pi]).abs().max() > 1e-9)
                    if "mwu_simplex" in g["tags"]:
                        close(p.sum(), 1., "sum of a simplex group", rtol=1e-10, shape=False)
                        check(bool((p > 0).all()), "simplex parameter not positive")
                    if "non_neg" in g["tags"]:
                        check(bool((p >= 0).all()), "non-negative parameter negative")
                    # the library's own value carries on: no drift by rounding
                    r.copy_(fwd(g["tags"], p))
    for g in q["groups"]:
        ctx.tag("+".join(g["tags"]) or "plain")
    ctx.tag(algo)
    return moved


LR = logf(1e-3, .5)
GROUP = fixed(tags=st.sampled_from(TAGS), shapes=st.lists(st.sampled_from(SHAPES), min_size=1, max_size=4), lr=LR,
              momentum=st.sampled_from([0., 0., .5, .9]), nesterov=st.booleans(), wd=st.sampled_from([0., 0., .1]))
S_HYBRID = fixed(seed=SEED, algo=st.sampled_from(["sgd", "adam"]), groups=st.lists(GROUP, min_size=1, max_size=4),
                 steps=dims(1, 6, 30), gstyle=st.sampled_from(["normal", "huge", "sparse"]),
                 skip=st.booleans(), closure=st.booleans())

PRE = {"mwu", "mwu_simplex", "max", "bound"}
POST = {"mwu", "mwu_simplex", "non_neg", "max"}
CONFLICTS = [[a, b] for a in sorted(PRE | POST) for b in sorted(PRE | POST)
             if a < b and ({a, b} <= PRE or {a, b} <= POST)]


def conflict(q, ctx):
    cls = HybridSGD if q["algo"] == "sgd" else HybridAdam
    p = pt.nn.Parameter(pt.tensor([.25, .75]))
    r = pt.nn.Parameter(pt.tensor([.25, .75]))
    groups = [{"params": [p], **{t: True for t in q["tags"]}}]
    if q["other"]:
        groups.insert(q["other"] - 1, {"params": [r]})

    def go():
        opt = cls(groups, lr=.1)
        p.grad, r.grad = pt.ones(2), pt.ones(2)
        opt.step()
    must_raise((AssertionError, ValueError), go, f"a group tagged {q['tags']}")
    ctx.tag("+".join(q["tags"]))
    return True


S_CONFLICT = fixed(algo=st.sampled_from(["sgd", "adam"]), tags=st.sampled_from(CONFLICTS), other=st.integers(0, 2))


# -------------------------------------------------------------------------
# composite optimiser

def method(name, params):
    if name == "prodigy":
        return Prodigy(params, lr=1., weight_decay=0, safeguard_warmup=True, use_bias_correction=True)
    return mechanize(pt.optim.Adam)(params, lr=1., weight_decay=0.)


class Pair:
    """Model parameters and multiplier of one generated problem."""

    def __init__(self, q):
        self.q = q
        self.w = [pt.nn.Parameter(pt.tensor(arr(q["seed"], 3 + i, s), dtype=pt.float64))
                  for i, s in enumerate(q["shapes"])]
        self.lam = pt.nn.Parameter(pt.tensor(q["lam"], dtype=pt.float64))
        self.target = [pt.tensor(arr(q["seed"], 40 + i, s), dtype=pt.float64) for i, s in enumerate(q["shapes"])]

    def loss(self, t):
        q = self.q
        o = sum(((w - c) ** 2).sum() for w, c in zip(self.w, self.target)) * q["curv"]
        return o + q["slope"] * self.lam + .1 * q["curv"] * self.lam ** 2 + .01 * t * self.lam

    def copy_from(self, other):
        with pt.no_grad():
            for a, b in zip(self.w + [self.lam], other.w + [other.lam]):
                a.copy_(b)

    def values(self):
        return [p.detach().clone() for p in self.w + [self.lam]]


def budget(q):
    return q["train"] if q["single"] else (q["warm"], q["train"])


def horizon(q):
    warm = int(.3 * q["train"]) if q["single"] else q["warm"]
    return warm + q["train"], q["train"]


def make(q, p):
    it = iter(p.w) if q["as_iter"] else list(p.w)
    return CompositeOptimizer(it, p.lam, budget(q), q["name"])


def advance(opt, p, t):
    opt.zero_grad()
    for w in p.w + [p.lam]:
        check(w.grad is None or not bool(w.grad.any()), "a gradient survives zero_grad")
    with pt.enable_grad():
        p.loss(t).backward()
    opt.step()
    check(float(p.lam) >= 0., f"multiplier {float(p.lam)} after a step")


def composite(q, ctx):
    a, b = Pair(q), Pair(q)
    try:
        opt = make(q, a)
        ow, ol = method(q["name"], b.w), method(q["name"], [b.lam])
        scheds = []
        if q["name"] == "prodigy":
            tw, tl = horizon(q)
            scheds = [pt.optim.lr_scheduler.CosineAnnealingLR(ow, T_max=tw),
                      pt.optim.lr_scheduler.CosineAnnealingLR(ol, T_max=tl)]
        first = a.values()
        for t in range(q["steps"]):
            advance(opt, a, t)
            for w in b.w + [b.lam]:
                w.grad = None
            with pt.enable_grad():
                b.loss(t).backward()
            ow.step()
            ol.step()
            for s in scheds:
                s.step()
            with pt.no_grad():
                if float(b.lam) < 0:
                    ctx.tag("clamped")
                b.lam.clamp_(min=0.)
            for x, y in zip(a.values(), b.values()):
                close(x, y, f"step {t}", rtol=1e-9, atol=1e-12)
    finally:
        pt.set_grad_enabled(True)
    ctx.tag(q["name"])
    return any(bool((x != y).any()) for x, y in zip(first, a.values()))


def resume(q, ctx):
    """Interrupting, saving and restoring carries on as if nothing happened."""
    q = dict(q, name="prodigy")
    a = Pair(q)
    opt = make(q, a)
    for t in range(q["steps"]):
        advance(opt, a, t)
    saved, state = a.values(), copy.deepcopy(opt.state_dict())
    want = []
    for t in range(q["more"]):
        advance(opt, a, q["steps"] + t)
        want.append(a.values())
    if q["fresh"]:
        b = Pair(q)
        other = make(q, b)
        ctx.tag("fresh")
    else:
        b, other = a, opt
        ctx.tag("same")
    with pt.no_grad():
        for p, v in zip(b.w + [b.lam], saved):
            p.copy_(v)
    other.load_state_dict(state)
    for t in range(q["more"]):
        advance(other, b, q["steps"] + t)
        for x, y in zip(b.values(), want[t]):
            close(x, y, f"step {t} after restoring", rtol=1e-9, atol=1e-12)
    return any(bool((x != y).any()) for x, y in zip(saved, want[-1]))


def unknown(q, ctx):
    p = Pair(dict(q, shapes=[[2]]))
    must_raise((NotImplementedError, ValueError, KeyError),
               lambda: CompositeOptimizer(list(p.w), p.lam, 10, q["name"]), f"adaptive method {q['name']!r}")
    return True


COMP = dict(seed=SEED, shapes=st.lists(st.sampled_from(SHAPES), min_size=1, max_size=3),
            lam=st.sampled_from([0., 1e-6, .01, 1., 20.]), curv=logf(.01, 10.), slope=st.sampled_from([-5., -.1, .1, 5., 50.]),
            warm=dims(0, 6, 40), train=dims(1, 20, 120), single=st.booleans(), as_iter=st.booleans(),
            steps=dims(1, 12, 60))
S_COMP = fixed(name=st.sampled_from(["prodigy", "prodigy", "mechanic"]), **COMP)
S_RESUME = fixed(more=st.integers(1, 5), fresh=st.booleans(), **COMP)
S_UNKNOWN = fixed(seed=SEED, lam=st.just(1.), name=st.sampled_from(["adam", "Prodigy", "", "mechanics", "sgd", "none", "prodigy "]))

CASES = [
    Case("hybrid", S_HYBRID, hybrid, 400, 8000),
    Case("conflict", S_CONFLICT, conflict, 60, 300),
    Case("composite", S_COMP, composite, 200, 3000),
    Case("resume", S_RESUME, resume, 120, 2000),
    Case("unknown", S_UNKNOWN, unknown, 15, 60),
]
