"""L02: wrapped user losses."""
import numpy as np
import torch as pt
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

from skwdro.base.losses_torch import WrappedPrimalLoss

from harness import zoo
from harness.core import Case, check, close, has_shape, must_raise, same, to_np
from harness.dual import FixedSampler
from harness.gen import DTYPES, SEED, dims, fixed, tens

RULE = ("Generated models and element-wise losses evaluated in every batch layout (alone, flat, samples by points, "
        "deeper); non-trivial when the points have different values or there is a single point.")


class Sum(nn.Module):
    """Several outputs per point, so that the averaging matters."""
    reduction = "none"

    def __init__(self, d):
        super().__init__()
        self.c = nn.Parameter(pt.zeros(d))

    def forward(self, x):
        return (x - self.c) ** 2


def wrapped(q, dt):
    kind = q["kind"]
    if kind == "multi_u":
        loss = Sum(q["d"]).to(dt)
        c = tens(q["seed"], 120, (q["d"],), dtype=dt)
        with pt.no_grad():
            loss.c.copy_(c)
        C = c.double()
        tr, reduces, ref, ps = None, False, (lambda x, y=None: ((x - C) ** 2).mean(-1, keepdim=True)), [C]
        lab = False
    else:
        loss, tr, reduces, ref, ps = zoo.build(kind, q["seed"], q["d"], q["k"], q["wscale"], dt, lib=True)
        lab = kind in zoo.LABELLED
    W = WrappedPrimalLoss(loss, tr, FixedSampler(None, None), lab, reduce_spatial_dims=not reduces, l2reg=q["l2"])
    r = 0.
    if q["l2"]:
        r = .5 * float(pt.tensor(q["l2"])) * float(sum((p.detach() ** 2).sum() for p in ps))

    def full(x, y):
        v = (ref(x, y) if lab else ref(x)) + r
        return v.detach()
    return W, lab, full, ps, loss, tr, r


def layouts(q, ctx):
    dt = DTYPES[q["dtype"]]
    W, lab, ref, ps, loss, tr, r = wrapped(q, dt)
    n, m, d = q["n"], q["m"], q["d"]
    dl = zoo.out_dim(q["kind"], q["k"])
    x = tens(q["seed"], 1, (n, m, d), q["style"], 1., dt)
    y = zoo.labels(q["kind"], q["seed"], 2, (n, m, dl), q["k"], dt, q["style"]) if lab else None
    want = ref(x.double(), None if y is None else y.double())     # (n, m, 1)
    psum = float(sum(p.detach().abs().sum() for p in ps))
    mag = float(want.abs().max()) + r + (1. + float(x.abs().max()) * (1 + psum)) ** 2 + (float(y.abs().max()) if lab else 0.) ** 2
    tol = dict(rtol=0., atol=(2e-6 if q["dtype"] == "f32" else 1e-14) * mag * (d + 3) + 3e-9 * (1 + r))
    keep = x.clone()

    def ev(a, b):
        via = W if q["call"] else W.value
        return via(a, b) if lab else via(a)

    got = ev(x, y)
    has_shape(got, (n, m, 1), "samples by points")
    close(got, want, "samples by points", **tol)
    # flat batch
    for i in range(min(n, 2)):
        v = ev(x[i], y[i] if lab else None)
        check(v.numel() == m, f"flat batch: {tuple(v.shape)} for {m} points")
        close(v.reshape(-1), want[i].reshape(-1), "flat batch", **tol)
    # flat batch keeping a leading dimension of one
    v = ev(x[:1], y[:1] if lab else None)
    has_shape(v, (1, m, 1), "one sample by points")
    close(v, want[:1], "one sample by points", **tol)
    if lab:
        v = ev(x[:1], y[0])
        has_shape(v, (1, m, 1), "one sample by points, flat labels")
        close(v, want[:1], "one sample by points, flat labels", **tol)
    # alone
    v = ev(x[0, 0], y[0, 0] if lab else None)
    check(v.numel() == 1, f"single point: {tuple(v.shape)}")
    close(v.reshape(-1), want[0, 0], "single point", **tol)
    v = ev(x[-1:, -1:], y[-1:, -1:] if lab else None)
    has_shape(v, (1, 1, 1), "single point, three dimensions")
    close(v, want[-1:, -1:], "single point, three dimensions", **tol)
    # deeper layout
    xx, yy = x.unsqueeze(1).expand(n, 2, m, d), y.unsqueeze(1).expand(n, 2, m, dl) if lab else None
    v = ev(xx, yy)
    has_shape(v, (n, 2, m, 1), "four dimensions")
    close(v, want.unsqueeze(1).expand(n, 2, m, 1), "four dimensions", **tol)
    same(x, keep, "data after evaluation")
    ctx.tag(q["kind"])
    ctx.tag("reg" if r else "noreg")
    return n * m == 1 or bool((want.max() - want.min()).abs() > 0)


def reported(q, ctx):
    dt = DTYPES[q["dtype"]]
    W, lab, ref, ps, loss, tr, r = wrapped(q, dt)
    have = [p for o in (loss, tr) if isinstance(o, nn.Module) for p in o.parameters()]
    for p in have[::2]:
        p.requires_grad_(not q["frozen"])
    want = np.sort(np.concatenate([to_np(p).ravel() for p in have])) if have else np.zeros(0)
    th = to_np(W.theta, "reported parameters")
    check(th.shape == want.shape, f"reported parameters of shape {th.shape}, the model has {want.size}")
    same(np.sort(th.ravel()), want, "reported parameters")
    check(float(to_np(W.intercept)) == 0., "a wrapped loss reports a separate intercept")
    check(bool(W.has_labels) == lab, "has_labels")
    # parameters follow the model
    with pt.no_grad():
        for p in have:
            p.add_(1.)
    same(np.sort(to_np(W.theta).ravel()), np.sort(np.concatenate([to_np(p).ravel() for p in have])), "updated parameters")
    check({id(p) for p in W.parameters()} == {id(p) for p in have}, "parameters of the wrapped loss are not the model's")
    ctx.tag(q["kind"])
    return True


def misuse(q, ctx):
    dt = DTYPES[q["dtype"]]
    W, lab, *_ = wrapped(q, dt)
    x = tens(q["seed"], 1, (q["m"], q["d"]), dtype=dt)
    y = tens(q["seed"], 2, (q["m"], zoo.out_dim(q["kind"], q["k"])), dtype=dt)
    errs = (AssertionError, ValueError, TypeError, NotImplementedError)
    must_raise(errs, (lambda: W.value(x, None)) if lab else (lambda: W.value(x, y)),
               "labels missing" if lab else "labels in excess")
    s = FixedSampler(None, None)
    for red in ("mean", "sum"):
        must_raise(errs, lambda: WrappedPrimalLoss(nn.MSELoss(reduction=red), None, s, True), f"loss reduced by {red}")
    must_raise(errs, lambda: WrappedPrimalLoss(3., None, s, True), "loss that cannot be called")
    return True


def classes(q, ctx):
    """Integer class targets in a flat batch."""
    dt = DTYPES[q["dtype"]]
    k, d, m = q["k"], q["d"], q["m"]
    w, b = tens(q["seed"], 1, (k, d), dtype=dt), tens(q["seed"], 2, (k,), dtype=dt)
    fn = F.cross_entropy if q["call"] else nn.CrossEntropyLoss(reduction="none")
    W = WrappedPrimalLoss(fn, zoo.linear(w, b, dt), FixedSampler(None, None), True,
                          reduce_spatial_dims=False, l2reg=q["l2"])
    x = tens(q["seed"], 3, (m, d), q["style"], 1., dt)
    y = tens(q["seed"], 4, (m, k), dtype=dt).argmax(-1)
    s = x.double() @ w.double().T + b.double()
    want = -pt.log_softmax(s, -1)[pt.arange(m), y]
    if q["l2"]:
        want = want + .5 * float(pt.tensor(q["l2"])) * float((w.double() ** 2).sum() + (b.double() ** 2).sum())
    got = W.value(x, y)
    check(got.numel() == m, f"class targets: {tuple(got.shape)} for {m} points")
    close(got.reshape(-1), want, "class targets", rtol=1e-5, atol=(1e-4 if q["dtype"] == "f32" else 1e-10) * (1 + float(s.abs().max())))
    return True


BASE = dict(kind=st.sampled_from(zoo.LABELLED + zoo.UNLABELLED + ["multi_u", "multi_u"]), seed=SEED,
            m=dims(1, 5, 80), n=dims(1, 4, 40), d=dims(1, 4, 30), k=dims(2, 4, 10), dtype=st.sampled_from(["f64", "f32"]),
            wscale=st.sampled_from([1., .1, 3., 300.]), frozen=st.booleans(), l2=st.sampled_from([None, None, 0., .3, 4., 1e-4]), call=st.booleans(),
            style=st.sampled_from(["normal", "int", "equal", "offset", "big"]))
CASES = [
    Case("layouts", fixed(**BASE), layouts, 2000),
    Case("reported", fixed(**BASE), reported, 300),
    Case("misuse", fixed(**BASE), misuse, 200, 1000),
    Case("classes", fixed(**BASE), classes, 300),
]
