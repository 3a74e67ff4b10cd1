"""C01: transport costs against their formulas and the axioms of a cost."""
import torch as pt
from hypothesis import strategies as st

from harness.core import Case, Violation, check, close, fail, has_shape, must_raise, to_np
from harness.dual import INF, make_cost, ref_cost
from harness.gen import DTYPES, SEED, STYLES, dims, fixed, logf, tens

RULE = ("Generated pairs of labelled points in broadcastable layouts, norm types, powers and label weights; "
        "non-trivial when the two points differ.")

KAPPA = st.one_of(logf(1e-4, 1e9), logf(1e-12, 1e20), st.sampled_from([0., 1., INF]))
NORM = st.one_of(st.sampled_from([1., 2., INF, 3., 1.5]), logf(1., 10.))
POWER = st.one_of(st.sampled_from([1., 2., 3., .5]), logf(.25, 4.))


def representable(q):
    """Single precision cannot hold high powers of small differences."""
    if q["dtype"] == "f32" and 1e9 < q["kappa"] < INF and q["zstyle"] not in ("samey", "same"):
        q = dict(q, zstyle="samey")
    if q["dtype"] == "f32" and q["scale"] > 100.:
        q = dict(q, scale=100.)
    return dict(q, p=4.) if q["dtype"] == "f32" and 4. < q["p"] < INF else q


def params(**extra):
    return fixed(
        seed=SEED, cid=st.sampled_from(["NC", "NLC"]), p=NORM, power=POWER, kappa=KAPPA,
        d=dims(1, 6, 60), dl=dims(1, 4, 30), dtype=st.sampled_from(["f64", "f32"]),
        lead=st.sampled_from([[], [4], [1, 5], [3, 4], [2, 1], [2, 3, 2], [80], [15, 9]]), scale=st.sampled_from([1., 1., 1., 1., 1., 1., .1, .1, 100., 100., 1e6, 1e9]),
        xb=st.booleans(), zb=st.booleans(),
        style=st.sampled_from(STYLES), zstyle=st.sampled_from(["free", "same", "near", "samex", "samey"]), **extra).map(representable)


def bshape(lead, cut, d):
    """Keep or collapse the leading dimensions (to be broadcast)."""
    return tuple((1,) * len(lead) if cut else lead) + (d,)


def points(q):
    dt = DTYPES[q["dtype"]]
    if q["zstyle"] != "free":
        q = dict(q, xb=False, zb=False)
    x = tens(q["seed"], 1, bshape(q["lead"], q["xb"], q["d"]), q["style"], q["scale"], dt)
    y = tens(q["seed"], 2, bshape(q["lead"], q["xb"], q["dl"]), q["style"], q["scale"], dt)
    zs = q["zstyle"]
    z = tens(q["seed"], 3, bshape(q["lead"], q["zb"], q["d"]), q["style"], q["scale"], dt)
    w = tens(q["seed"], 4, bshape(q["lead"], q["zb"], q["dl"]), q["style"], q["scale"], dt)
    if zs in ("same", "samex"):
        z = x.clone()
    if zs in ("same", "samey"):
        w = y.clone()
    if zs == "near":
        z = x + 1e-4 * tens(q["seed"], 5, tuple(x.shape), "normal", q["scale"], dt)
        w = y + 1e-4 * tens(q["seed"], 6, tuple(y.shape), "normal", q["scale"], dt)
    return x, y, z, w


def rt(q, k=1.):
    return (5e-5 if q["dtype"] == "f32" else 1e-9) * k


def value(q, ctx):
    x, y, z, w = points(q)
    c = make_cost(q["cid"], q["p"], q["power"], q["kappa"])
    want = ref_cost(q["cid"], q["p"], q["power"], q["kappa"], x.double(), z.double(), y.double(), w.double())
    lab = q["cid"] == "NLC"
    xs, zs, ys, ws = (t.clone() for t in (x, z, y, w))
    for name, f in (("call", c), ("value", c.value)):
        got = f(x, z, y, w) if lab or q["give_labels"] else f(x, z)
        shp = tuple(pt.broadcast_shapes(x.shape[:-1], z.shape[:-1])) + (1,)
        has_shape(got, shp, f"cost ({name})")
        close(got, want, f"cost ({name})", rtol=rt(q, 1 + q["power"]), atol=1e-30)
    check(got.dtype == DTYPES[q["dtype"]], f"cost dtype {got.dtype}")
    for a, b in ((x, xs), (z, zs), (y, ys), (w, ws)):
        check(bool((a == b).all()), "cost evaluation modified its inputs")
    ctx.tag(q["cid"]); ctx.tag(q["zstyle"])
    return bool((want > 0).any())


def axioms(q, ctx):
    x, y, z, w = points(q)
    c = make_cost(q["cid"], q["p"], q["power"], q["kappa"])

    def f(a, b, e, g):
        return to_np(c(a, b, e, g), "cost")
    v = f(x, z, y, w)
    tiny = 1e-25
    check(bool((v >= 0).all()), "negative cost")
    check(bool((f(x, x, y, y) == 0).all()), "cost of identical points is not zero")
    close(f(z, x, w, y), v, "symmetry", rtol=rt(q), atol=tiny)
    # exact powers of two: homogeneity without rounding of the inputs
    t = 2. ** q["expo"]
    close(f(x * t, z * t, y * t, w * t), v * t ** q["power"], "homogeneity", rtol=rt(q, 20), atol=tiny)
    close(f(-x, -z, -y, -w), v, "reflection", rtol=rt(q), atol=tiny)
    # permuting coordinates
    close(f(x.flip(-1), z.flip(-1), y.flip(-1), w.flip(-1)), v, "coordinate order", rtol=rt(q, 10), atol=tiny)
    # translation on an exactly representable grid
    gx, gz, gy, gw = ((u * 8).round() / 8 for u in (x, z, y, w))
    s = 4.
    close(f(gx + s, gz + s, gy - s, gw - s), f(gx, gz, gy, gw), "translation", rtol=rt(q), atol=tiny)
    return bool((v > 0).any())


def triangle(q, ctx):
    x, y, z, w = points(dict(q, xb=False, zb=False))
    dt = DTYPES[q["dtype"]]
    u = tens(q["seed"], 7, tuple(x.shape), q["style"], 1., dt)
    v = tens(q["seed"], 8, tuple(y.shape), q["style"], 1., dt)
    c = make_cost(q["cid"], q["p"], 1., q["kappa"])
    ab, ac, cb = (to_np(c(*t), "cost") for t in ((x, z, y, w), (x, u, y, v), (u, z, v, w)))
    check(bool((ab <= (ac + cb) * (1 + rt(q, 10)) + 1e-20).all()), "triangle inequality")
    return True


def kappa(q, ctx):
    """Monotone interpolation between data and label distances; bad weights."""
    x, y, z, w = points(dict(q, xb=False, zb=False))
    pw = q["power"]
    dx = to_np(make_cost("NLC", q["p"], pw, 0.)(x, z, y, w), "cost")
    dy = to_np(make_cost("NLC", q["p"], pw, INF)(x, z, y, w), "cost")
    v = to_np(make_cost("NLC", q["p"], pw, q["kappa"])(x, z, y, w), "cost")
    lo, hi = pt.minimum(pt.tensor(dx), pt.tensor(dy)).numpy(), pt.maximum(pt.tensor(dx), pt.tensor(dy)).numpy()
    r = rt(q, 20)
    check(bool(((v >= lo * (1 - r)) & (v <= hi * (1 + r) + 1e-25)).all()),
          "labelled cost not between its data and label parts")
    close(dx, to_np(make_cost("NC", q["p"], pw, 0.)(x, z), "cost"), "kappa=0 against the unlabelled cost",
          rtol=rt(q), atol=1e-30)
    # labels do not matter to the unlabelled cost
    close(to_np(make_cost("NC", q["p"], pw, 0.)(x, z, y, w + 1.), "cost"), dx, "unlabelled cost with labels",
          rtol=rt(q), atol=1e-30)
    if q["kappa"] > 0:
        must_raise((AssertionError, ValueError), lambda: make_cost("NLC", q["p"], pw, -q["kappa"]), "negative kappa")
    return True


CASES = [
    Case("value", params(give_labels=st.booleans()), value, 4000),
    Case("axioms", params(expo=st.integers(-6, 6)), axioms, 2500),
    Case("triangle", params(), triangle, 1200),
    Case("kappa", params(), kappa, 1200),
]
