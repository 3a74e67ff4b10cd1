"""C03: displaced points maximise the linear gain minus the cost."""
import torch as pt
from hypothesis import strategies as st

from harness.core import Case, check, close, has_shape, must_raise
from harness.dual import INF, make_cost
from harness.gen import DTYPES, SEED, STYLES, dims, fixed, logf, tens

RULE = ("Generated points, directions, label weights and layouts; non-trivial when the direction is not null. "
        "The maximiser is checked both in closed form and against random competitors.")


def data(q):
    dt = DTYPES[q["dtype"]]
    lead = tuple(q["lead"])
    x = tens(q["seed"], 1, lead + (q["d"],), q["style"], 1., dt)
    y = tens(q["seed"], 2, lead + (q["dl"],), q["style"], 1., dt)
    # directions may have collapsed leading dimensions (shared by all samples)
    gl = tuple(1 if i == 0 and q["share"] and len(lead) > 1 else s for i, s in enumerate(lead))
    g = tens(q["seed"], 3, gl + (q["d"],), q["gstyle"], q["gscale"], dt)
    h = tens(q["seed"], 4, gl + (q["dl"],), q["gstyle"], q["gscale"], dt)
    return x, y, g, h


def maximise(q, ctx):
    x, y, g, h = data(q)
    c = make_cost(q["cid"], 2., 2., q["kappa"])
    keep = [t.clone() for t in (x, y, g, h)]
    if q["mode"] == "both":
        z, w = c.solve_max_series_exp(x, y, g, h)
    elif q["mode"] == "nolab":
        z, w = c.solve_max_series_exp(x, None, g, None)
    else:
        z, w = c.solve_max_series_exp(x, y, g, None)
    for a, b in zip((x, y, g, h), keep):
        check(bool((a == b).all()), "inputs modified")
    rt = 1e-5 if q["dtype"] == "f32" else 1e-13
    X, Y, G, H = (t.double() for t in (x, y, g, h))
    sx = float(X.abs().max() + G.abs().max())
    close(z, X + G / 2, "displaced point", rtol=0., atol=rt * sx)
    has_shape(z, x.shape, "displaced point")
    if q["mode"] == "nolab":
        check(w is None, "labels out of nowhere")
    elif q["cid"] == "NC" or q["mode"] == "dir_only":
        check(w is not None and bool((w == y).all()), "labels moved although they should not")
    else:
        close(w, Y + H / (2 * q["kappa"]), "displaced label", rtol=0.,
              atol=rt * float(Y.abs().max() + H.abs().max() / q["kappa"]))
    # no competitor does better
    Z = z.double()

    def gain(p):
        return (G * (p - X)).sum(-1) - ((p - X) ** 2).sum(-1)
    best = gain(Z)
    for i, r in enumerate((.1, 1., 10.)):
        other = Z + r * (tens(q["seed"], 10 + i, tuple(Z.shape), "normal", 1.) * (1e-3 + sx))
        check(bool((gain(other) <= best + 1e-4 * sx * sx * rt / 1e-5 + 1e-12).all()),
              "another point has a larger gain minus cost")
    ctx.tag(q["cid"]); ctx.tag(q["mode"])
    return bool((G.abs() > 0).any())


def laws(q, ctx):
    """Translation equivariance and linearity in the direction."""
    q = dict(q, dtype="f64")
    x, y, g, h = data(q)
    c = make_cost(q["cid"], 2., 2., q["kappa"])
    z, w = c.solve_max_series_exp(x, y, g, h)
    t = q["shift"]
    z2, w2 = c.solve_max_series_exp(x + t, y - t, g, h)
    s = float(x.abs().max() + g.abs().max()) + abs(t)
    sl = float(y.abs().max() + h.abs().max() / q["kappa"]) + abs(t)
    close(z2, z + t, "translated point", rtol=0., atol=1e-13 * s)
    close(w2, w - t, "translated label", rtol=0., atol=1e-13 * sl)
    z3, w3 = c.solve_max_series_exp(x, y, q["f"] * g, q["f"] * h)
    close(z3 - x, q["f"] * (z - x), "scaled direction", rtol=0., atol=1e-12 * s * (1 + abs(q["f"])))
    close(w3 - y, q["f"] * (w - y), "scaled label direction", rtol=0., atol=1e-12 * sl * (1 + abs(q["f"])))
    return bool((g.abs() > 0).any())


def unsupported(q, ctx):
    if q["p"] == 2. and q["power"] == 2.:
        return False
    x, y, g, h = data(q)
    c = make_cost(q["cid"], q["p"], q["power"], q["kappa"])
    args = {"both": (x, y, g, h), "nolab": (x, None, g, None), "dir_only": (x, y, g, None)}[q["mode"]]
    must_raise((NotImplementedError,), lambda: c.solve_max_series_exp(*args), "displacement without a closed form")
    return True


BASE = dict(seed=SEED, d=dims(1, 5, 40), dl=dims(1, 3, 20), lead=st.sampled_from([[], [3], [1, 4], [3, 2], [2, 1], [70], [20, 6]]),
            share=st.booleans(), style=st.sampled_from(STYLES), gstyle=st.sampled_from(STYLES),
            gscale=logf(1e-3, 1e2), cid=st.sampled_from(["NC", "NLC"]), kappa=logf(1e-9, 1e9),
            dtype=st.sampled_from(["f64", "f32"]), mode=st.sampled_from(["both", "both", "nolab", "dir_only"]))
CASES = [
    Case("maximise", fixed(**BASE), maximise, 2000),
    Case("laws", fixed(shift=st.sampled_from([1., -7., .5, 100.]), f=st.sampled_from([2., -1., .25, 0., -3.]), **BASE),
         laws, 1000),
    Case("unsupported", fixed(p=st.sampled_from([1., 2., 3., INF]), power=st.sampled_from([1., 2., 3., 1.5]), **BASE),
         unsupported, 400),
]
