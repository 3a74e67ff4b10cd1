"""Cases, oracles' helpers and the Hypothesis driver of one shard."""
import hashlib
import json
import os
import random
import time
import traceback

import numpy as np
import torch as pt

import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, settings

from .env import REPO

REPO_SRC = os.path.join(os.path.realpath(REPO), "skwdro") + os.sep


# the counts of the cases are units of a few seconds per property
QUICK_FACTOR, THOROUGH_FACTOR = 5, 4


class Violation(Exception):
    """The property is broken for the parameters under evaluation."""


class Case:
    """One generated family of evaluations of a property.

    strategy: draws a JSON-able dict
    body: body(params, ctx) -> truthy when the evaluation was non-trivial;
          raises Violation when the property does not hold
    quick/thorough: number of examples per run, over all shards
    """

    def __init__(self, name, strategy, body, quick, thorough=None, shards=None):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards

    def examples(self, tier):
        return QUICK_FACTOR * self.quick if tier == "quick" else THOROUGH_FACTOR * self.thorough


class Ctx:
    def __init__(self):
        self.tags = {}

    def tag(self, name):
        self.tags[name] = self.tags.get(name, 0) + 1


# --------------------------------------------------------------------------
# assertion helpers: everything that looks at values coming out of the
# library goes through these so that odd types are reported as violations
# --------------------------------------------------------------------------

def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def to_np(x, what="value"):
    if x is None:
        raise Violation(f"{what}: got None")
    try:
        if isinstance(x, pt.Tensor):
            return x.detach().cpu().double().numpy()
        return np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation(f"{what}: not numeric ({type(x)}): {e}")


def close(got, want, what, rtol=1e-7, atol=1e-9, shape=True, scale=0.):
    """Agreement up to rounding.

    |got-want| <= atol + rtol * max(|want|, scale); equal infinities/NaNs agree.
    """
    g = to_np(got, what)
    w = to_np(want, what)
    if shape and g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    try:
        g, w = np.broadcast_arrays(g, w)
    except ValueError:
        raise Violation(f"{what}: shape {g.shape} against {w.shape}")
    with np.errstate(all="ignore"):
        ok = np.abs(g - w) <= atol + rtol * np.maximum(np.abs(w), scale)
    ok |= (g == w) | (np.isnan(g) & np.isnan(w))
    if not np.all(ok):
        i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
        gg, ww = np.atleast_1d(g)[i], np.atleast_1d(w)[i]
        raise Violation(
            f"{what}: {int((~ok).sum())}/{ok.size} entries differ, "
            f"e.g. at {i}: got {gg!r}, expected {ww!r} (diff {gg - ww:.3e})")


def same(got, want, what):
    """Exact agreement (shape, values)."""
    g, w = to_np(got, what), to_np(want, what)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if not np.array_equal(g, w, equal_nan=True):
        raise Violation(f"{what}: values differ from the expected ones")


def has_shape(x, shape, what):
    s = tuple(getattr(x, "shape", ("no shape",)))
    if s != tuple(shape):
        raise Violation(f"{what}: shape {s}, expected {tuple(shape)}")


def must_raise(exc, fn, what):
    """fn must raise one of exc."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}) instead of {exc}")
    raise Violation(f"{what}: accepted, returned {str(r)[:120]}")


def in_repo(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def reseed(value=12345):
    """Fixed global random state before each body: bodies are pure functions
    of their parameters."""
    random.seed(value)
    np.random.seed(value)
    pt.manual_seed(value)
    pt.set_grad_enabled(True)


# raised by autograd about tensors the library returned
UNDIFFERENTIABLE = ("does not require grad", "modified by an inplace operation", "backward through the graph a second time",
                    "appears to not have been used in the graph")


def run_body(case, params, ctx):
    """Evaluate one case; exceptions out of the library become violations."""
    pt.set_default_dtype(pt.float32)
    reseed()
    try:
        return bool(case.body(params, ctx))
    except Violation:
        raise
    except Exception as e:
        if in_repo(e.__traceback__):
            last = traceback.format_exception(type(e), e, e.__traceback__)[-3:]
            raise Violation(
                f"unexpected {type(e).__name__}: {e}\n" + "".join(last)) from e
        if isinstance(e, RuntimeError) and any(t in str(e) for t in UNDIFFERENTIABLE):
            raise Violation(f"a result of the library cannot be differentiated: {e}") from e
        raise


def digest(case, params):
    raw = case.name + json.dumps(params, sort_keys=True)
    return hashlib.blake2b(raw.encode(), digest_size=8).digest()


SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "25"))


class ShardResult:
    def __init__(self, case_name):
        self.case = case_name
        self.evaluations = 0
        self.digests = set()
        self.tags = {}
        self.samples = []
        self.violation = None   # (params, message)
        self.error = None
        self.cut = 0            # examples skipped because of the time budget


def run_shard(case, seed, n, deadline, stop=None):
    """Run n examples of a case under one Hypothesis seed."""
    pt.set_num_threads(1)
    res = ShardResult(case.name)
    failing = {}    # digest -> message
    order = []      # failing params, in order
    first = [None]

    @hypothesis.seed(seed)
    @settings(database=None, deadline=None, max_examples=n, print_blob=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              verbosity=Verbosity.quiet, phases=(Phase.generate, Phase.shrink))
    @given(case.strategy)
    def test(params):
        # a single raise statement: Hypothesis tells failures apart by line
        msg = evaluate(params)
        if msg is not None:
            raise Violation(msg)

    def evaluate(params):
        dg = digest(case, params)
        if dg in failing:
            return failing[dg]
        now = time.monotonic()
        if now > deadline or (stop is not None and stop.is_set() and not failing):
            res.cut += 1
            return None
        if first[0] is not None and now - first[0] > SHRINK_S:
            return None
        ctx = Ctx()
        try:
            nontrivial = run_body(case, params, ctx)
        except Violation as v:
            failing[dg] = str(v)
            order.append(params)
            if first[0] is None:
                first[0] = now
                if stop is not None:
                    stop.set()
            return failing[dg]
        if first[0] is not None:
            return None
        res.evaluations += 1
        for k, v in ctx.tags.items():
            res.tags[k] = res.tags.get(k, 0) + v
        if nontrivial:
            if dg not in res.digests:
                res.samples = [params]
            res.digests.add(dg)
        return None

    try:
        test()
    except BaseException as e:
        if not order:
            res.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
            return res
    if order:
        # confirm outside of Hypothesis, smallest failure first
        for params in [order[-1]] + order[:1]:
            try:
                run_body(case, params, Ctx())
            except Violation as v:
                res.violation = (params, str(v))
                break
        else:
            res.error = ("failure does not reproduce outside of the generator: "
                         + json.dumps(order[-1])[:1500] + "\n" + failing[digest(case, order[-1])])
    return res
