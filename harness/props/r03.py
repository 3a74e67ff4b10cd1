"""R03: robust losses saved, restored, copied and converted."""
import copy
import io
import pickle

import torch as pt
from hypothesis import strategies as st

from harness.core import Case, check, close, same
from harness.dual import DualPostSampledLoss, DualPreSampledLoss, Problem, dual_params
from harness.gen import logf
from harness.props.d08 import LAWS, by_hand, pick

RULE = ("Generated robust losses saved and restored into others, copied and converted, compared with the original on the "
        "same samples; non-trivial when the restored loss differed before.")


def make(q, **kw):
    q = pick(q)
    own = (lambda P: by_hand(P, q["sigma"], q["rseed"])) if q["lib"] else None
    form = DualPostSampledLoss if q["form"] == "post" else DualPreSampledLoss
    imp = q["imp"] and tuple(q["law"]) == (2., 2.) and q["lib"]
    return Problem(q, form, imp_samp=imp, sampler=own, **kw)


def value(rob, P, dt=None):
    def c(t):
        return t if t is None or dt is None else t.to(dt)
    v = rob.compute_dual(c(P.xi), c(P.y), c(P.zeta), c(P.zl))
    return v.detach()


def drawn(rob, P, seed):
    pt.manual_seed(seed)
    v = rob(P.xi, P.y) if P.q["form"] == "post" else rob(P.xi, P.y, P.zeta, P.zl)
    return v.detach()


def through(sd, how):
    """The state, possibly through a file."""
    if how == "direct":
        return sd
    f = io.BytesIO()
    pt.save(sd, f)
    f.seek(0)
    return pt.load(f)


def restore(q, ctx):
    A = make(q)
    B = make(dict(q, seed=q["seed"] + 3, lam=q["lam"] + 1., rho=q["rho2"], eps=q["eps2"], wscale=.5))
    B.sampler.reset_mean(A.xi, A.y)     # the data are not part of the state
    b0 = value(B.robust, A)
    want = value(A.robust, A)
    sd = through(A.robust.state_dict(), q["how"])
    out = B.robust.load_state_dict(sd)
    check(not out.missing_keys and not out.unexpected_keys, f"restoring: {out}")
    same(value(B.robust, A), want, "restored loss against the saved one")
    same(value(A.robust, A), want, "saved loss after saving")
    if q["lib"]:
        same(drawn(B.robust, A, q["rseed"]), drawn(A.robust, A, q["rseed"]), "restored loss evaluated like the saved one")
    for n in ("lam", "rho", "epsilon"):
        same(getattr(B.robust, n).detach(), getattr(A.robust, n).detach(), f"restored {n}")
    # the two losses do not share their memory
    with pt.no_grad():
        for p in B.robust.parameters():
            p.add_(.25)
    same(value(A.robust, A), want, "saved loss after changing the restored one")
    ctx.tag(q["how"])
    return bool((b0 != want).any())


def duplicate(q, ctx):
    A = make(q)
    ps = list(A.primal.parameters())
    if ps and q["frozen"]:
        ps[0].requires_grad_(False)
    if q["eval"]:
        A.robust.eval()
    A.robust.erm_mode = q["erm"]
    want, drew = value(A.robust, A), drawn(A.robust, A, q["rseed"])
    if q["how"] == "direct":
        B = copy.deepcopy(A.robust)
    else:
        try:
            pickle.dumps((A.loss_, A.transform_, A.sampler))
        except (pickle.PicklingError, AttributeError, TypeError):
            ctx.tag("model cannot be pickled")
            return False
        B = pickle.loads(pickle.dumps(A.robust))
    ctx.tag(q["how"])
    same(value(B, A), want, "copy against the original")
    same(drawn(B, A, q["rseed"]), drew, "copy evaluated like the original")
    check([p.requires_grad for p in A.robust.parameters()] == [p.requires_grad for p in B.parameters()], "frozen parameters of the copy")
    check([m.training for m in A.robust.modules()] == [m.training for m in B.modules()], "modes of the copy")
    check(B.n_samples == A.robust.n_samples and B.imp_samp == A.robust.imp_samp, "options of the copy")
    check(not {p.data_ptr() for p in A.robust.parameters()} & {p.data_ptr() for p in B.parameters()}, "shared parameters")
    with pt.no_grad():
        for p in B.parameters():
            p.add_(.25)
    same(value(A.robust, A), want, "original after changing the copy")
    other = A.xi + 1.
    if q["form"] == "post" and q["lib"]:
        B(other, A.y)       # recentres the copy's sampler only
        pt.manual_seed(q["rseed"])
        same(A.robust(A.xi, A.y, reset_sampler=False).detach(), drew, "original after moving the copy's sampler")
    return True


def convert(q, ctx):
    A = make(dict(q, dtype="f32", imp=False))
    want = value(A.robust, A)
    tol = A.tol()
    A.robust.double()
    check(all(p.dtype == pt.float64 for p in A.robust.parameters()), "parameters left in single precision")
    wide = value(A.robust, A, pt.float64)
    check(wide.dtype == pt.float64, f"converted loss in {wide.dtype}")
    close(wide, want, "loss converted to double precision", rtol=0., atol=2 * tol["atol"])
    A.dt = pt.float64
    close(wide, A.ref_dual(), "loss converted to double precision against the definition", **A.tol())
    A.robust.float()
    close(value(A.robust, A), want, "loss converted back", rtol=0., atol=0.01 * tol["atol"])
    return True


P_ = dual_params(eps=logf(1e-2, 2.), eps2=logf(1e-2, 2.), rho2=logf(1e-3, 2.), law=st.sampled_from(LAWS), rseed=st.integers(0, 10**6),
                 sigma=logf(1e-2, 2.), form=st.sampled_from(["pre", "post"]), lib=st.booleans(), imp=st.booleans(),
                 how=st.sampled_from(["direct", "file"]), frozen=st.booleans(), eval=st.booleans(),
                 erm=st.sampled_from([False, False, True]))
CASES = [Case("restore", P_, restore, 250, 2500), Case("duplicate", P_, duplicate, 250, 2500), Case("convert", P_, convert, 150, 1500)]
