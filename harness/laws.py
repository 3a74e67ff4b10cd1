"""Samplers of the library with an independent description of their laws.

A law is a dict: kind normal (tril), laplace (scale), switch (p), fixed, none.
"""
import math

import numpy as np
import torch as pt
from hypothesis import strategies as st

from skwdro.base.samplers.torch import (
    ClassificationNormalBernouilliSampler, ClassificationNormalIdSampler,
    ClassificationNormalNormalSampler, LabeledCostSampler, NewsVendorNormalSampler,
    NoLabelsCostSampler, PortfolioNormalSampler)

from .dual import INF, make_cost
from .gen import DTYPES, SEED, arr, dims, fixed, rng, sig

KINDS = ["cost", "cost", "labcost", "labcost", "nn", "nid", "nber", "news", "port"]
LAW_OF_COST = {(1., 1.): "laplace", (2., 1.): "normal", (INF, 1.): "normal", (2., 2.): "normal"}
FORMS = ["sigma", "tsigma", "tril", "cov", "prec"]


def sampler_params(kinds=KINDS, tails=None, **extra):
    base = dict(kind=st.sampled_from(kinds), seed=SEED, m=dims(1, 4, tails and tails[0]), d=dims(1, 4, tails and tails[1]), dl=dims(1, 2, tails and tails[2]),
                 cost=st.sampled_from([[1., 1.], [2., 1.], [INF, 1.], [2., 2.], [2., 2.]]),
                 cid=st.sampled_from(["NC", "NLC", "NLC"]),
                 kappa=st.one_of(st.sampled_from([.125, .5, 1., 4., 1024., INF, 1e8, 1e10, 1e-3]), st.integers(1, 640).map(lambda i: i / 8)),
                 sigma=st.one_of(st.sampled_from([.0625, .25, .5, 1., 2., 8., 2. ** -12, 256.]), st.integers(1, 160).map(lambda i: i / 16)),
                 lsigma=st.one_of(st.sampled_from([.125, 1., 4.]), st.integers(1, 64).map(lambda i: i / 16)),
                 form=st.sampled_from(FORMS), lform=st.sampled_from(FORMS),
                 dtype=st.sampled_from(["f32", "f64"]),
                 p=st.one_of(st.sampled_from([0., .1, .25, .5, .7, .95, 1.]), st.integers(1, 99).map(lambda i: i / 100)),
                 lab=st.sampled_from(["pm1", "pm1", "pm3"]),
                 shift=st.sampled_from([1., 1., 10.]))
    return fixed(**{**base, **extra})


def tril_of(seed, key, d, sigma):
    """Well conditioned lower triangular factor."""
    r = rng(seed, key)
    a = np.tril(r.uniform(-.6, .6, (d, d)), -1) + np.diag(r.uniform(.5, 1.5, d))
    return sigma * a


class Spec:
    """One sampler, its centre and the laws it must follow."""

    def __init__(self, q):
        self.kind = q["kind"]
        if q["cost"][1] == 1. and 1024. < q["kappa"] < INF:
            q = dict(q, kappa=1024.)    # labels closer to their centre than rounding shows
        cov = self.kind in ("nn", "nid", "nber", "news", "port")
        scalar = q["form"] in ("sigma", "tsigma") or (self.kind == "nn" and q["lform"] in ("sigma", "tsigma"))
        if cov and scalar:
            q = dict(q, sigma=min(max(q["sigma"], .0625), 10.))
        self.q = q
        # scalar widths are single precision quantities in the library
        self.dt = pt.float32 if cov and scalar else DTYPES[q["dtype"]]
        if not cov and q["kappa"] > 100 or q["sigma"] < .05:
            self.dt = pt.float64    # label noise would be lost in single precision
        self.labelled = self.kind in ("labcost", "nn", "nid", "nber")
        d, dl = q["d"], q["dl"]
        self.cost = None
        if cov:
            tr, self.kw = self.covariance(q["form"], 11, d, q["sigma"], "")
            self.data_law = dict(kind="normal", tril=tr)
            if self.kind == "nn":
                tl, kwl = self.covariance(q["lform"], 12, dl, q["lsigma"], "l_")
                self.kw.update(kwl)
                self.label_law = dict(kind="normal", tril=tl)
            else:
                self.label_law = {"nid": dict(kind="fixed"), "nber": dict(kind="switch", p=q["p"])}.get(self.kind)
        else:
            p, power = q["cost"]
            cid = q["cid"] if self.labelled else "NC"
            self.cost = make_cost(cid, p, power, q["kappa"])
            self.data_law = self.iso(LAW_OF_COST[p, power], d, q["sigma"])
            self.label_law = None
            if self.labelled:
                if cid == "NC" or q["kappa"] == INF:
                    self.label_law = dict(kind="fixed")
                else:
                    self.label_law = self.iso(LAW_OF_COST[p, power], dl, q["sigma"] / (q["kappa"] if power == 1 else 1.))

    @staticmethod
    def iso(kind, d, s):
        return dict(kind=kind, scale=s, tril=s * np.eye(d))

    def covariance(self, form, key, d, sigma, prefix):
        if form == "sigma":
            return sigma * np.eye(d), {prefix + "sigma": sigma}
        if form == "tsigma":
            return sigma * np.eye(d), {prefix + "sigma": pt.tensor(sigma)}
        tr = tril_of(self.q["seed"], key, d, sigma)
        tr = np.asarray(pt.tensor(tr, dtype=self.dt).double())
        c = tr @ tr.T
        mat = {"tril": tr, "cov": c, "prec": np.linalg.inv(c)}[form]
        return tr, {prefix + form: pt.tensor(mat, dtype=self.dt)}

    def centre(self, key=0, m=None):
        q = self.q
        m = q["m"] if m is None else m
        x = pt.tensor(arr(q["seed"], 100 + key, (m, q["d"]), "normal", q["shift"]), dtype=self.dt)
        y = None
        if self.labelled:
            if self.kind == "nber":
                v = np.where(rng(q["seed"], 200 + key).random((m, q["dl"])) < .5, -1., 1.)
                if q["lab"] == "pm3":
                    v = v * rng(q["seed"], 300 + key).integers(1, 4, size=v.shape)
                y = pt.tensor(v, dtype=self.dt)
            else:
                y = pt.tensor(arr(q["seed"], 200 + key, (m, q["dl"]), "normal", q["shift"]), dtype=self.dt)
        return x, y

    def build(self, x, y, seed=None):
        q, k = self.q, self.kind
        if k == "cost":
            return NoLabelsCostSampler(self.cost, x, q["sigma"], seed)
        if k == "labcost":
            return LabeledCostSampler(self.cost, x, y, q["sigma"], seed)
        if k == "nn":
            return ClassificationNormalNormalSampler(x, y, seed=seed, **self.kw)
        if k == "nid":
            return ClassificationNormalIdSampler(x, y, seed=seed, **self.kw)
        if k == "nber":
            return ClassificationNormalBernouilliSampler(q["p"], x, y, seed=seed, **self.kw)
        cls = {"news": NewsVendorNormalSampler, "port": PortfolioNormalSampler}[k]
        return cls(x, seed=seed, **self.kw)


def log_density(law, c, z):
    """Log-density of the law centred at c, summed over the last dimension
    (kept), float64. Switched labels: log-probability."""
    c, z = c.double(), z.double()
    if law["kind"] == "normal":
        tr = pt.tensor(law["tril"], dtype=pt.float64)
        u = pt.linalg.solve_triangular(tr, (z - c).unsqueeze(-1), upper=False).squeeze(-1)
        return (-.5 * (u * u).sum(-1, keepdim=True) - float(np.log(np.abs(np.diag(law["tril"]))).sum())
                - .5 * z.shape[-1] * math.log(2 * math.pi))
    if law["kind"] == "laplace":
        s = law["scale"]
        return -((z - c).abs() / s).sum(-1, keepdim=True) - z.shape[-1] * math.log(2 * s)
    if law["kind"] == "switch":
        p = law["p"]
        lp = pt.where(z == c, math.log(1 - p) if p < 1 else -INF, math.log(p) if p > 0 else -INF)
        return lp.sum(-1, keepdim=True)
    raise ValueError(law["kind"])
