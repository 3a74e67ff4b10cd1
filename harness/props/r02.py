"""R02: results, step budgets and data containers."""
from fractions import Fraction

import numpy as np
import torch as pt
from hypothesis import strategies as st

from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss
from skwdro.solvers.result import SolverResult, wrap_solver_result
from skwdro.solvers.utils import interpret_steps_struct

from harness.core import Case, check, must_raise, same
from harness.dual import Problem, dual_params
from harness.fits import quiet
from harness.gen import SEED, arr, dims, fixed, logf

RULE = ("Generated tuples, mappings, budgets and arrays handed to the containers; every evaluation reads everything "
        "back and is non-trivial when something was stored.")

FIELDS = {1: ["coef"], 2: ["coef", "dual_var"], 3: ["coef", "intercept", "dual_var"],
          4: ["coef", "intercept", "dual_var", "robust_loss"]}
NAMED = FIELDS[4]


def item(code, seed, i):
    """Distinct objects of the kinds solvers return."""
    if code == "none":
        return None
    if code == "zero":
        return 0.
    if code == "float":
        return 1.5 + i
    if code == "tensor":
        return pt.full((2,), float(i))
    if code == "list":
        return [float(i)]
    return arr(seed, i, (3,))


ITEM = st.sampled_from(["none", "zero", "float", "tensor", "list", "array"])


def result(q, ctx):
    vals = [item(c, q["seed"], i) for i, c in enumerate(q["items"])]
    kind = q["kind"]
    calls = []

    def solver(a, b=2, *, c=3):
        """doc of the solver"""
        calls.append((a, b, c))
        return give
    if kind == "tuple":
        give = tuple(vals)
        names = FIELDS[len(vals)]
    elif kind == "dict":
        names = q["names"][:len(vals)]
        give = dict(zip(names, vals))
    else:
        names = NAMED[:len(vals)]
        give = SolverResult(**dict(zip(names, vals)))
    f = wrap_solver_result(solver)
    check(f.__name__ == "solver" and f.__doc__ == "doc of the solver", "the wrapped solver lost its name or documentation")
    r = f(q["seed"], b=5, c=7)
    check(calls == [(q["seed"], 5, 7)], f"the solver was called as {calls}")
    check(isinstance(r, SolverResult), f"result of type {type(r).__name__}")
    ctx.tag(f"{kind}/{len(vals)}")
    if kind == "result":
        check(r is give, "an existing result was not passed through")
    for n in NAMED:
        want = vals[names.index(n)] if n in names else None
        check(getattr(r, n) is want, f"{n} is {getattr(r, n)!r} instead of {want!r}")
    for n, v in zip(names, vals):
        check(getattr(r, n) is v, f"{n} is {getattr(r, n)!r} instead of {v!r}")
    for _ in range(2):
        got = tuple(r)
        want = vals if kind != "result" else [r.coef, r.intercept, r.dual_var]
        check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), f"unpacks to {got} instead of {want}")
    # arguments reach the solver whatever their value
    for v in (None, 0, "", ()):
        calls.clear()
        f(v, b=v, c=v)
        f(v, v)
        check(calls == [(v, v, v), (v, v, 3)], f"the solver was called as {calls}")
    # a second result keeps nothing of the first
    two = wrap_solver_result(lambda: (1,))()
    check(tuple(two) == (1,) and two.coef == 1 and two.intercept is None and two.dual_var is None and two.robust_loss is None,
          "a result kept fields of another one")
    check(tuple(SolverResult(coef=1)) == (1, None, None), "a plain result does not unpack to coefficients, intercept and multiplier")
    return True


@st.composite
def results(draw):
    kind = draw(st.sampled_from(["tuple", "tuple", "dict", "result"]))
    items = draw(st.lists(ITEM, min_size=1, max_size=4))
    names = draw(st.permutations(NAMED + ["status", "gap"]))
    return dict(kind=kind, items=items, names=list(names), seed=draw(SEED))


def refuse(q, ctx):
    bad = {"none": None, "list": [1., 2.], "array": np.ones(3), "tensor": pt.ones(2), "float": 1., "str": "ab", "set": {1},
           "empty": (), "five": (1, 2, 3, 4, 5), "gen": (i for i in range(3)), "many": tuple(range(q["n"] + 5))}[q["what"]]
    must_raise((RuntimeError, AssertionError, ValueError, TypeError), lambda: wrap_solver_result(lambda: bad)(), f"solver returning {q['what']}")

    def boom():
        raise KeyError("own")
    must_raise((KeyError,), wrap_solver_result(boom), "a failing solver")
    ctx.tag(q["what"])
    return True


def steps(q, ctx):
    n = q["n"]
    w, r = interpret_steps_struct(n)
    check((w, r) == (int(Fraction(3, 10) * n), n), f"budget {n} splits into {(w, r)}")
    check(isinstance(w, int) and isinstance(r, int), "steps are not integers")
    p = (q["a"], q["b"])
    check(tuple(interpret_steps_struct(p)) == p, f"budget {p} became {interpret_steps_struct(p)}")
    s = q["split"]
    check(interpret_steps_struct(n, s / 100.) == (int(n * (s / 100.)), n), f"budget {n} with split {s / 100.}")
    for bad in (-.01, 1.01, 30.):
        must_raise((AssertionError, ValueError), lambda: interpret_steps_struct(n, bad), f"a split of {bad}")
    return True


class Counter(pt.optim.Optimizer):
    """Optimiser of the user that only counts."""

    def __init__(self, params):
        super().__init__(params, {})
        self.steps = 0

    def step(self, closure=None):
        self.steps += 1
        if closure is not None:
            closure()


def budget(q, ctx):
    """The solver makes the number of steps the budget announces."""
    q = dict(q, reduction=None, dtype="f32", m=q["m"] + 1)
    post = q["post"]
    P = Problem(q, DualPostSampledLoss if post else DualPreSampledLoss, n_iter=tuple(q["n_iter"]) if isinstance(q["n_iter"], list) else q["n_iter"])
    P.robust.optimizer = c = Counter(list(P.robust.parameters()))
    dist = data(P)
    r = quiet(solve_dual_wdro, P.robust, dist, OptCondTorch(2, 0., 0.))
    w, t = (int(Fraction(3, 10) * q["n_iter"]), q["n_iter"]) if isinstance(q["n_iter"], int) else q["n_iter"]
    check(c.steps == w + t, f"{c.steps} steps for a budget of {w} and {t}")
    check(len(tuple(r)) == 4, f"solver result of {len(tuple(r))} entries")
    ctx.tag("post" if post else "pre")
    return True


def data(P):
    x = P.xi.numpy().copy()
    if P.y is None:
        return EmpiricalDistributionWithoutLabels(len(x), x)
    return EmpiricalDistributionWithLabels(len(x), x, P.y.numpy().copy())


def container(q, ctx):
    m = q["m"]
    x = arr(q["seed"], 1, (m, q["d"]))
    if q["ints"]:
        x = np.round(x * 3).astype(np.int64)
    if q["order"] == "F":
        x = np.asfortranarray(x)
    elif q["order"] == "slice":
        x = np.repeat(x, 2, axis=0)[::2]
    y = np.arange(m)[::-1] * 1. if q["flat"] else arr(q["seed"], 2, (m, 2))
    kw = {} if q["name"] is None else {"name": q["name"]}
    keep = x.copy(), y.copy()
    D = EmpiricalDistributionWithLabels(m, x, y, **kw)
    U = EmpiricalDistributionWithoutLabels(m, x, **kw)
    for d in (D, U):
        check(d.m == m, f"size {d.m} instead of {m}")
        check(d.name == (q["name"] if q["name"] is not None else "Empirical distribution"), f"name {d.name!r}")
        check(d.empirical is True, "not marked as empirical")
    check(D.with_labels is True and U.with_labels is False, "label flags")
    for _ in range(2):
        same(D.samples_x, x, "stored data"); same(D.samples_y, y, "stored labels"); same(U.samples, x, "stored samples")
    check(D.samples_x.dtype == x.dtype and D.samples_y.dtype == y.dtype and U.samples.dtype == x.dtype, "the type of the arrays changed")
    same(x, keep[0], "data handed over"); same(y, keep[1], "labels handed over")
    # labelled data are snapshots
    x2, y2 = x.copy(), y.copy()
    E = EmpiricalDistributionWithLabels(m, x2, y2)
    x2 += 1
    y2 += 1
    same(E.samples_x, keep[0], "data changed behind the distribution"); same(E.samples_y, keep[1], "labels changed behind the distribution")
    must_raise((AttributeError,), lambda: D.samples, "samples of a labelled distribution")
    must_raise((AttributeError,), lambda: U.samples_x, "labelled samples of an unlabelled distribution")
    must_raise((AttributeError,), lambda: U.samples_y, "labels of an unlabelled distribution")
    n = keep[0] * 2
    D.samples_x = n
    same(D.samples_x, n, "replaced data"); same(D.samples_y, y, "labels after replacing data")
    D.samples_y = keep[1] + 1
    same(D.samples_y, keep[1] + 1, "replaced labels"); same(D.samples_x, n, "data after replacing labels")
    U.samples = n
    same(U.samples, n, "replaced samples")
    for a, d in (("samples_x", D), ("samples_y", D), ("samples", U)):
        must_raise((TypeError,), lambda: setattr(d, a, n.tolist()), f"a list as {a}")
        must_raise((TypeError,), lambda: setattr(d, a, None), f"None as {a}")
    same(D.samples_x, n, "data after refused replacements"); same(U.samples, n, "samples after refused replacements")
    # distributions do not share anything
    same(E.samples_x, keep[0], "data of another distribution"); same(E.samples_y, keep[1], "labels of another distribution")
    ctx.tag(q["order"])
    return True


CASES = [
    Case("result", results(), result, 300, 4000),
    Case("refuse", fixed(what=st.sampled_from(["none", "list", "array", "tensor", "float", "str", "set", "empty", "five", "gen", "many"]),
                         n=st.integers(0, 5)), refuse, 60, 200),
    Case("steps", fixed(n=st.one_of(st.integers(0, 200), st.integers(0, 10**6), st.integers(0, 10**5).map(lambda i: 10 * i)),
                        a=st.integers(0, 10**4), b=st.integers(0, 10**4), split=st.integers(0, 100)), steps, 300, 5000),
    Case("budget", dual_params(max_m=4, max_n=3, max_d=3, far=(40, 40, 12), post=st.booleans(), rho=logf(1e-2, 10.),
                               n_iter=st.one_of(st.integers(1, 25), st.lists(st.integers(1, 6), min_size=2, max_size=2),
                                                st.tuples(st.just(0), st.integers(1, 6)).map(list))), budget, 100, 1200),
    Case("container", fixed(seed=SEED, m=dims(1, 6, 150), d=dims(1, 4, 40), ints=st.booleans(), order=st.sampled_from(["C", "F", "slice"]),
                            flat=st.booleans(), name=st.one_of(st.none(), st.text(max_size=5))), container, 200, 2500),
]
