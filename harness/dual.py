"""Robust losses built from generated parameters, with reference evaluations."""
import math

import torch as pt
import torch.nn as nn
from hypothesis import strategies as st

from skwdro.base.costs_torch import NormCost, NormLabelCost
from skwdro.base.losses_torch import WrappedPrimalLoss
from skwdro.base.samplers.torch.base_samplers import BaseSampler
from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss

from . import zoo
from .gen import DTYPES, SEED, dims, fixed, logf, tens

INF = float("inf")


class FixedSampler(BaseSampler):
    """User-side sampler that hands out prepared samples and logs the calls."""

    def __init__(self, zeta, zeta_labels):
        super().__init__(None)
        self.zeta, self.zeta_labels = zeta, zeta_labels
        self.requests, self.means = [], []

    @property
    def produces_labels(self):
        return self.zeta_labels is not None

    def sample(self, n_samples):
        self.requests.append(n_samples)
        return self.zeta, self.zeta_labels

    def reset_mean(self, xi, xi_labels):
        self.means.append((xi, xi_labels))

    def log_prob(self, zeta, zeta_labels):
        return pt.zeros(*zeta.shape[:-1], 1).to(zeta)

    def log_prob_recentered(self, xi, xi_labels, zeta, zeta_labels):
        return pt.zeros(*zeta.shape[:-1], 1).to(zeta)


def norm(v, p):
    a = v.abs()
    if p == INF:
        return a.amax(-1, keepdim=True)
    if p == 1:
        return a.sum(-1, keepdim=True)
    mx = a.amax(-1, keepdim=True)
    safe = pt.where(mx > 0, mx, pt.ones_like(mx))
    return pt.where(mx > 0, safe * ((a / safe) ** p).sum(-1, keepdim=True) ** (1. / p), pt.zeros_like(mx))


def ref_cost(cid, p, power, kappa, x, z, y=None, w=None):
    """Documented transport cost, float64."""
    dx = norm(x - z, p)
    if cid == "NC":
        return dx ** power
    dy = norm(y - w, p)
    if kappa == INF:
        return dy ** power
    return ((dx + kappa * dy) / (1. + kappa)) ** power


def make_cost(cid, p, power, kappa):
    return NormCost(p=p, power=power) if cid == "NC" else NormLabelCost(p=p, power=power, kappa=kappa)


def dual_params(kinds=None, dtypes=("f64", "f64", "f32"), max_m=8, max_n=9, max_d=5, far=(130, 150, 40),
                reductions=(None, "mean", "sum", "none"), rho=logf(1e-4, 1e2), eps=logf(1e-4, 1e2),
                lam=st.one_of(logf(1e-4, 1e3), st.just(0.)), l2=st.sampled_from([None, None, 0., .3, 4., 1e-3]),
                **extra):
    return fixed(
        kind=st.sampled_from(kinds) if kinds else zoo.KIND,
        seed=SEED, m=dims(1, max_m, far[0]), n=dims(1, max_n, far[1]), d=dims(1, max_d, far[2]), k=dims(2, 4, 12),
        dtype=st.sampled_from(list(dtypes)),
        rho=rho, eps=eps, lam=lam,
        cid=st.sampled_from(["NC", "NLC", "NLC"]), p=st.sampled_from([1., 2., 2., INF, 3., 1.5, 4.]),
        power=st.sampled_from([1., 2., 2., 3., 1.5, 2.5, 4.]),
        kappa=st.one_of(logf(1e-3, 1e8), st.sampled_from([0., 1., INF])),
        reduction=st.sampled_from(list(reductions)),
        xstyle=st.sampled_from(["normal", "normal", "int", "equal", "offset"]),
        zstyle=st.sampled_from(["around", "around", "wide", "same", "free"]),
        wscale=st.sampled_from([1., 1., .1, 3.]),
        l2=l2, **extra)


OPS = ["eval", "eval", "back", "lam", "lam", "rho", "eps", "weights", "weights", "data", "swap", "fewer", "more", "guess", "erm",
       "freeze", "thaw"]
HIST = st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(OPS), min_size=1, max_size=4).map(lambda o: o + ["eval"]))


class Problem:
    """Everything needed to evaluate and to re-derive one robust loss."""

    def __init__(self, q, cls=DualPreSampledLoss, imp_samp=False, sampler=None, lib=False, **kw):
        self.q = q
        dt = DTYPES[q["dtype"]]
        self.dt = dt
        kind, seed, m, n, d = q["kind"], q["seed"], q["m"], q["n"], q["d"]
        own = kind in zoo.BUILTIN
        self.labelled = kind in zoo.LABELLED + zoo.BUILTIN_LABELLED
        self.cid = q["cid"] if self.labelled else "NC"
        dl = zoo.out_dim(kind, q["k"])
        if not own:
            self.loss_, self.transform_, reduces, self.ref, self.params = zoo.build(
                kind, seed, d, q["k"], q.get("wscale", 1.), dt, lib=lib)
            self.shrunk = self.params
        self.xi = tens(seed, 1, (m, d), q["xstyle"], 1., dt)
        self.y = zoo.labels(kind, seed, 2, (m, dl), q["k"], dt, q["xstyle"]) if self.labelled else None
        zs = {"around": .3, "wide": 3., "same": 0., "free": 1.}[q["zstyle"]]
        base = 0. if q["zstyle"] == "free" else 1.
        self.zeta = base * self.xi.unsqueeze(0) + tens(seed, 3, (n, m, d), "normal", zs, dt)
        self.zl = None
        if self.labelled:
            if q["zstyle"] == "same":
                self.zl = self.y.unsqueeze(0).expand(n, m, dl).clone()
            elif kind == "xent":
                self.zl = zoo.labels(kind, seed, 4, (n, m, dl), q["k"], dt)
            else:
                self.zl = base * self.y.unsqueeze(0) + tens(seed, 4, (n, m, dl), "normal", zs, dt)
        self.cost = make_cost(self.cid, q["p"], q["power"], q["kappa"])
        self.sampler = sampler(self) if sampler is not None else FixedSampler(self.zeta, self.zl)
        self.l2 = q.get("l2")
        if own:
            self.primal, self.ref, self.params, self.shrunk = zoo.builtin(
                kind, seed, d, self.sampler, self.l2, q.get("wscale", 1.), dt)
            self.loss_, self.transform_ = self.primal, None
        else:
            self.primal = WrappedPrimalLoss(
                self.loss_, self.transform_, self.sampler, self.labelled,
                reduce_spatial_dims=not reduces, l2reg=self.l2)
        self.robust = cls(
            self.primal, self.cost, n_samples=q.get("nconf") or n,
            epsilon_0=pt.tensor(q["eps"], dtype=dt), rho_0=pt.tensor(q["rho"], dtype=dt),
            reduction=q["reduction"], imp_samp=imp_samp, **kw)
        if "lam" in q:
            self.set_lam(q["lam"])
        if q.get("hist"):
            self.wander(q["hist"])

    def wander(self, ops):
        """Uses the robust loss in other states, then puts it back into its first one."""
        R, q = self.robust, self.q
        tensors = list(R.parameters()) + list(R.buffers())
        keep = [(t, t.detach().clone(), t.requires_grad) for t in tensors]
        erm, imp = R.erm_mode, R.imp_samp
        R.imp_samp = imp and q["p"] == q["power"] == 2.
        model = list(self.primal.parameters())
        x, y, z, zl = self.xi, self.y, self.zeta, self.zl
        for i, op in enumerate(ops):
            a = float(tens(q["seed"], 40 + i, (1,)).abs()) + .1
            with pt.no_grad():
                if op == "lam":
                    R.lam.fill_(a)
                elif op == "rho":
                    R.rho.fill_(a)
                elif op == "eps":
                    R.epsilon.fill_(a)
                elif op == "weights":
                    for t in model:
                        t.mul_(1 + .5 * a)
                elif op == "data":
                    x, z = a * x, a * z
                    R.sampler.reset_mean(x, y)
                elif op == "swap":
                    x, y = x.flip(0), None if y is None else y.flip(0)
                    z, zl = z.flip(1), None if zl is None else zl.flip(1)
                    R.sampler.reset_mean(x, y)
                elif op == "fewer":
                    z, zl = z[:1], None if zl is None else zl[:1]
                elif op == "more":
                    z, zl = z.repeat(2, 1, 1), None if zl is None else zl.repeat(2, 1, 1)
            if op == "guess":
                R.get_initial_guess_at_dual(x, y)
            elif op == "erm":
                R.erm_mode = not R.erm_mode
            elif op == "freeze":
                R.freeze()
            elif op == "thaw":
                R.freeze(rg=True)
            elif op in ("eval", "back"):
                v = R.compute_dual(x, y, z, zl)
                if op == "back" and v.requires_grad:
                    v.sum().backward()
        with pt.no_grad():
            for t, v, flag in keep:
                t.copy_(v)
                t.requires_grad_(flag)
        R.erm_mode, R.imp_samp = erm, imp
        R.sampler.reset_mean(self.xi, self.y)
        R.zero_grad(set_to_none=True)
        if isinstance(self.sampler, FixedSampler):
            self.sampler.requests, self.sampler.means = [], []

    def set_lam(self, v):
        with pt.no_grad():
            self.robust.lam.fill_(v)

    def set_rho(self, v):
        with pt.no_grad():
            self.robust.rho.fill_(v)

    def set_eps(self, v):
        with pt.no_grad():
            self.robust.epsilon.fill_(v)

    # ---- references ----------------------------------------------------
    def L(self, x, y):
        """Per-point documented loss with regularisation, float64."""
        v = self.ref(x, y) if self.labelled else self.ref(x)
        if self.l2:
            v = v + .5 * pt.tensor(self.l2).double() * sum((t * t).sum() for t in self.shrunk)
        return v

    def D(self, t):
        return None if t is None else t.double()

    def C(self, xi=None, zeta=None, y=None, zl=None):
        xi = self.xi if xi is None else xi
        zeta = self.zeta if zeta is None else zeta
        y = self.y if y is None else y
        zl = self.zl if zl is None else zl
        return ref_cost(self.cid, self.q["p"], self.q["power"], self.q["kappa"],
                        self.D(xi).unsqueeze(0), self.D(zeta),
                        None if y is None else self.D(y).unsqueeze(0), self.D(zl))

    def terms(self):
        """(loss, cost) at the samples, both (n, m, 1)."""
        return self.L(self.D(self.zeta), self.D(self.zl)), self.C()

    def lam64(self):
        return float(self.robust.lam.detach().double())

    def reduce(self, v):
        r = self.q["reduction"]
        if r == "none":
            return v.squeeze(-1)
        return v.sum() if r == "sum" else v.mean()

    def ref_dual(self, lam=None, rho=None, eps=None, extra=None):
        """Documented dual value; lam may be a leaf tensor."""
        q = self.q
        lam = pt.tensor(self.lam64(), dtype=pt.float64) if lam is None else lam
        rho = float(self.robust.rho.detach().double()) if rho is None else rho
        eps = float(self.robust.epsilon.detach().double()) if eps is None else eps
        L, c = self.terms()
        g = (L - lam * c) / eps
        if extra is not None:
            g = g + extra
        v = eps * (pt.logsumexp(g, 0) - math.log(g.shape[0]))
        return lam * rho ** q["power"] + self.reduce(v)

    def scale(self):
        """Magnitude of the quantities summed up, for rounding tolerances."""
        L, c = self.terms()
        lam = self.lam64()
        a = float(L.abs().max()) + abs(lam) * float(c.abs().max()) \
            + abs(lam) * float(self.robust.rho.detach()) ** self.q["power"] \
            + float(self.robust.epsilon.detach()) * (1 + math.log(L.shape[0]))
        x2 = float(self.D(self.zeta).abs().max()) * float(sum(t.abs().sum() for t in self.params))
        return (a + (1. + x2) ** 2) * (self.q["m"] if self.q["reduction"] == "sum" else 1)

    def tol(self):
        """Rounding bounds: float32 storage, float64 except a float32 log(n)."""
        s = self.scale()
        if self.dt == pt.float32:
            return dict(rtol=0., atol=2e-5 * s)
        e = float(self.robust.epsilon.detach())
        return dict(rtol=0., atol=1e-9 * s + 1e-6 * e * (self.q["m"] if self.q["reduction"] == "sum" else 1))
