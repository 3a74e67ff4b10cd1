"""D07: the user's model is left as it was found."""
import torch as pt
import torch.nn as nn
from hypothesis import strategies as st

from skwdro.base.costs_torch import NormCost, NormLabelCost
from skwdro.base.losses_torch import WrappedPrimalLoss
from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
from skwdro.torch import robustify

from harness import zoo
from harness.core import Case, check, close, to_np
from harness.dual import DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params
from harness.gen import DTYPES, SEED, dims, fixed, logf, tens

RULE = ("Generated networks with dropout/normalisation layers in either mode and frozen parameters, driven through "
        "generated sequences of forward, backward, importance-sampled and initial-guess calls; non-trivial when "
        "the model has a frozen parameter or a submodule in evaluation mode (something to spoil).")

OPS = ["forward", "backward", "guess", "impsamp", "impsamp_backward", "erm", "per_point"]
MID = ["none", "dropout", "batchnorm", "layernorm", "dropout2"]


class Loss1(nn.Module):
    reduction = "none"

    def forward(self, s):
        return s * s


def build(q):
    dt = DTYPES[q["dtype"]]
    pt.manual_seed(q["seed"] % (2 ** 31))
    h = 4
    mid = {"none": [], "dropout": [nn.Dropout(.4)], "batchnorm": [nn.BatchNorm1d(h)],
           "layernorm": [nn.LayerNorm(h)], "dropout2": [nn.Dropout(.2), nn.Linear(h, h), nn.Dropout(.3)]}[q["mid"]]
    net = nn.Sequential(nn.Linear(q["d"], h), *mid, nn.Tanh(), nn.Sequential(nn.Linear(h, 1))).to(dt)
    # generated modes and flags
    mods = list(net.modules())
    for i, m in enumerate(mods):
        m.training = bool(q["modes"][i % len(q["modes"])])
    for i, p in enumerate(net.parameters()):
        p.requires_grad_(bool(q["flags"][i % len(q["flags"])]))
    x = tens(q["seed"], 1, (q["m"], q["d"]), "normal", 1., dt)
    y = tens(q["seed"], 2, (q["m"], 1), "normal", 1., dt) if q["lab"] else None
    loss = nn.MSELoss(reduction="none") if q["lab"] else Loss1()
    rho = pt.tensor(q["rho"], dtype=dt)
    if q["how"] == "robustify":
        R = robustify(loss, net, rho, x, y, post_sample=q["form"] == "post",
                      cost_spec="t-NLC-2-2-10" if q["lab"] else "t-NC-2-2", n_samples=q["n"], seed=3)
    else:
        cost = NormLabelCost(p=2., power=2., kappa=10.) if q["lab"] else NormCost(p=2., power=2.)
        s = LabeledCostSampler(cost, x, y, .3, 3) if q["lab"] else NoLabelsCostSampler(cost, x, .3, 3)
        cls = DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss
        R = cls(WrappedPrimalLoss(loss, net, s, q["lab"]), cost, q["n"], pt.tensor(.1, dtype=dt), rho, imp_samp=True)
    # the user decides the modes and flags of the model
    for i, m in enumerate(mods):
        m.training = bool(q["modes"][i % len(q["modes"])])
    for i, p in enumerate(net.parameters()):
        p.requires_grad_(bool(q["flags"][i % len(q["flags"])]))
    with pt.no_grad():
        R.lam.fill_(q["lam"])
    return net, R, x, y, loss


def snapshot(net, R, x, y):
    return dict(
        values=[p.detach().clone() for p in net.parameters()],
        flags=[p.requires_grad for p in net.parameters()] + [R.rho.requires_grad, R.epsilon.requires_grad],
        modes=[m.training for m in net.modules()] + [m.training for m in R.modules()],
        data=[t.clone() for t in (x, y) if t is not None])


def compare(a, b, what):
    for u, v in zip(a["values"], b["values"]):
        check(bool((u == v).all()), f"{what} changed the model's parameters")
    check(a["flags"] == b["flags"], f"{what} changed frozen flags: {a['flags']} -> {b['flags']}")
    check(a["modes"] == b["modes"], f"{what} changed train/eval modes: {a['modes']} -> {b['modes']}")
    for u, v in zip(a["data"], b["data"]):
        check(bool((u == v).all()), f"{what} modified the data")


def history(q, ctx):
    net, R, x, y, _ = build(q)
    before = snapshot(net, R, x, y)
    lamflag = R.lam.requires_grad
    for op in q["ops"]:
        ctx.tag(op)
        R.imp_samp = op.startswith("impsamp")
        R.reduction = "none" if op == "per_point" else "mean"
        if op == "guess":
            R.get_initial_guess_at_dual(x, y)
            with pt.no_grad():
                R.lam.fill_(q["lam"])
        else:
            R.erm_mode = op == "erm"
            if q["form"] == "post":
                v = R(x, y)
            else:
                z, zl = R.generate_zetas()
                kz, kl = z.clone(), None if zl is None else zl.clone()
                v = R(x, y, z, zl)
                check(bool((z == kz).all()) and (zl is None or bool((zl == kl).all())), f"{op} modified the samples it was given")
            R.erm_mode = False
            if op.endswith("backward") and v.requires_grad:
                v.sum().backward()
        compare(before, snapshot(net, R, x, y), op)
        check(R.lam.requires_grad == lamflag, f"{op} changed the flag of the multiplier")
    return not all(before["flags"][:-2]) or not all(m.training for m in net.modules())


def modes(q, ctx):
    """train()/eval() reach every submodule and keep the robust value."""
    q = dict(q, mid="none" if q["mid"] != "layernorm" else "layernorm")
    net, R, x, y, _ = build(q)
    R.imp_samp = False
    z, zl = R.generate_zetas()

    def value():
        return R.compute_dual(x, y, z, zl)
    v0 = value().detach()
    R.erm_mode = True
    erm = value().detach()
    R.erm_mode = False
    for step in q["steps"]:
        out = {"train": lambda: R.train(), "train_true": lambda: R.train(True),
               "eval": lambda: R.eval(), "train_false": lambda: R.train(False)}[step]()
        want = step in ("train", "train_true")
        check(out is R, f"{step} does not return the module")
        for m in R.modules():
            check(m.training == want, f"after {step}: submodule {type(m).__name__} in mode training={m.training}")
        check(bool((value().detach() == v0).all()), f"after {step}: robust value changed")
        ctx.tag(step)
    return bool((erm != v0).any())


def freeze(q, ctx):
    net, R, x, y, _ = build(q)
    model = list(R.primal_loss.parameters())
    hyper = [R.rho, R.epsilon]
    vals = [p.detach().clone() for p in list(R.parameters())]
    for step in q["steps2"]:
        h0 = [p.requires_grad for p in hyper]
        m0 = [m.training for m in R.modules()]
        R.freeze(rg=step["rg"], include_hyper=step["hyper"]) if step["kw"] else (
            R.freeze(step["rg"]) if not step["hyper"] else R.freeze(step["rg"], step["hyper"]))
        for p in model + [R.lam]:
            check(p.requires_grad == step["rg"], "freeze did not reach a model parameter or the multiplier")
        for p, f in zip(hyper, h0):
            check(p.requires_grad == (step["rg"] if step["hyper"] else f), "freeze and the radius/temperature")
        check([m.training for m in R.modules()] == m0, "freeze changed modes")
        for p, v in zip(R.parameters(), vals):
            check(bool((p == v).all()), "freeze changed values")
    R.freeze()
    check(not any(p.requires_grad for p in model + [R.lam]), "default freeze does not freeze")
    return True


P = dict(seed=SEED, m=dims(2, 5, 70), n=dims(1, 4, 70), d=dims(1, 4, 20), dtype=st.sampled_from(["f64", "f32"]),
         lab=st.booleans(), form=st.sampled_from(["pre", "post"]), how=st.sampled_from(["robustify", "direct"]),
         mid=st.sampled_from(MID), rho=logf(1e-2, 1.), lam=logf(.1, 10.),
         modes=st.lists(st.booleans(), min_size=1, max_size=7), flags=st.lists(st.booleans(), min_size=1, max_size=5))
CASES = [
    Case("history", fixed(ops=st.lists(st.sampled_from(OPS), min_size=1, max_size=5), **P), history, 900),
    Case("modes", fixed(steps=st.lists(st.sampled_from(["train", "train_true", "eval", "train_false"]),
                                       min_size=1, max_size=5), **P), modes, 400),
    Case("freeze", fixed(steps2=st.lists(fixed(rg=st.booleans(), hyper=st.booleans(), kw=st.booleans()),
                                         min_size=1, max_size=4), **P), freeze, 300),
]
