"""Strategies for JSON-able parameters and their expansion into arrays."""
import math

import numpy as np
import torch as pt
from hypothesis import strategies as st

SEED = st.integers(0, 2**32 - 1)
STYLES = ["normal", "int", "sparse", "equal", "big", "small", "offset", "binary"]
DTYPES = {"f32": pt.float32, "f64": pt.float64}


def sig(x, n=4):
    """Keep n significant digits so that parameters print exactly."""
    return float(f"{x:.{n - 1}e}") if math.isfinite(x) else x


def logf(lo, hi):
    """Log-uniform positive floats."""
    a, b = math.log10(lo), math.log10(hi)
    return st.integers(0, 4096).map(lambda i: sig(10.**(a + (b - a) * i / 4096)))


def rng(*key):
    return np.random.default_rng([int(k) & 0xFFFFFFFF for k in key])


def arr(seed, key, shape, style="normal", scale=1.):
    """Deterministic array of a given style from integer keys."""
    r = rng(seed, key)
    a = r.standard_normal(shape)
    if style == "int":
        a = r.integers(-3, 4, size=shape).astype(float)
    elif style == "sparse":
        a = a * (r.random(shape) < .4)
    elif style == "equal":
        a = np.broadcast_to(r.standard_normal(shape[-1:] if len(shape) else ()), shape).copy()
    elif style == "big":
        a = a * 30.
    elif style == "small":
        a = a * 1e-3
    elif style == "offset":
        a = a + 20. * r.standard_normal(shape[-1:] if len(shape) else ())
    elif style == "binary":
        a = np.where(r.random(shape) < .5, -1., 1.)
    return a * scale


def tens(seed, key, shape, style="normal", scale=1., dtype=pt.float64):
    """Tensor of the array; data (keys below 100) also as views of larger or transposed storage."""
    t = pt.tensor(arr(seed, key, shape, style, scale), dtype=dtype)
    how = (seed + key) % 5 if key < 100 and t.dim() else None
    if how == 0:
        t = pt.stack([t, pt.full_like(t, math.nan)], -1)[..., 0]
    elif how == 1:
        t = t.mT.contiguous().mT if t.dim() > 1 else t
    return t


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def dims(lo, hi, far=None):
    """Sizes with both ends well represented and, when far is given, now and
    then a size beyond hi, up to far."""
    near = [st.integers(lo, hi), st.sampled_from([lo, lo, hi])]
    return st.one_of(*near) if far is None else st.one_of(*(7 * near), st.integers(hi + 1, far))
