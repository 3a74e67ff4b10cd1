"""C02: cost specification strings."""
import torch as pt
from hypothesis import strategies as st

from skwdro.base.cost_decoder import cost_from_parse_torch, cost_from_str, parse_code_torch

from harness.core import Case, check, close, must_raise
from harness.dual import INF, ref_cost
from harness.gen import SEED, dims, fixed, tens

RULE = ("Generated well-formed codes (all identifiers, numbers in several spellings, with and without engine and "
        "label weight) and malformed ones; every evaluation decodes a code and is non-trivial.")

NUM = ["1", "2", "2.0", "1.0", "3", "1.5", "0.5", "2.", "1e0", "inf", "2e0", "4"]
POW = [n for n in NUM if n != "inf"]
KAP = ["0", "1", "10", "0.5", "1e8", "1000.0", "inf", "2.5", "1e4", "0.001"]
TENTH = st.integers(5, 80).map(lambda i: f"{i / 10:g}")


def values(c, cid, p, power, kappa, q, what):
    dt = pt.float64
    x, z = (tens(q["seed"], i, (3, q["d"]), "normal", 1., dt) for i in (1, 2))
    y, w = (tens(q["seed"], i, (3, 2), "normal", 1., dt) for i in (3, 4))
    close(c(x, z, y, w), ref_cost(cid, p, power, kappa, x, z, y, w), what, rtol=1e-9, atol=1e-30)
    check(float(c.power) == power, f"{what}: power {c.power}, expected {power}")
    check(float(c.p) == p, f"{what}: norm type {c.p}, expected {p}")
    if cid == "NLC":
        check(float(c.kappa) == kappa, f"{what}: label weight {c.kappa}, expected {kappa}")


def decode(q, ctx):
    cid, power, p = q["cid"], float(q["power"]), float(q["type"])
    kappa = 1e8 if q["kappa"] is None else float(q["kappa"])
    tail = [q["cid"], q["power"], q["type"]]
    full = "-".join(["t"] + tail + ([] if q["kappa"] is None else [q["kappa"]]))
    values(cost_from_str(full), cid, p, power, kappa, q, f"cost of {full}")
    codes = [full] + (["-".join(tail)] if q["kappa"] is None else [])
    for code in codes:
        for hl in (False, True):
            pc = parse_code_torch(code, hl)
            values(cost_from_parse_torch(pc), cid, p, power, kappa, q, f"parsed cost of {code}")
            check(bool(pc.can_imp_samp()) == (power == 2 and p == 2), f"importance sampling for {code}")
            check((pc.id, pc.power, pc.type, pc.kappa) == (cid, power, p, kappa), f"fields of {code}: {pc}")
            check(list(pc) == ["t", cid, power, p, kappa], f"unpacking {code}: {list(pc)}")
    pc = parse_code_torch(None, q["hl"])
    values(cost_from_parse_torch(pc), "NLC" if q["hl"] else "NC", 2., 2., 1e8, q, "default cost")
    check(bool(pc.can_imp_samp()), "default cost admits importance sampling")
    ctx.tag(cid); ctx.tag("kappa" if q["kappa"] is not None else "no kappa")
    return True


def build(code):
    return cost_from_parse_torch(parse_code_torch(code, True))


def invalid(q, ctx):
    tail = [q["power"], q["type"]]
    kind = q["bad"]
    if kind == "engine":
        code = "-".join([q["engine"], q["cid"]] + tail + ([q["kappa"]] if q["kappa"] else []))
    elif kind == "id":
        code = "-".join(["t", q["badid"]] + tail + ([q["kappa"]] if q["kappa"] else []))
    elif kind == "few":
        code = "-".join(["t", q["cid"], *tail][:q["cut"]])
    elif kind == "many":
        code = "-".join(["t", q["cid"], *tail, "10", *["1"] * q["cut"]])
    elif kind == "dash":
        code = "-".join((["t"] if q["cut"] > 1 else []) + [q["cid"], *tail] + ([q["kappa"]] if q["kappa"] and q["cut"] > 1 else []))
        code = {1: "-" + code, 2: code + "-", 3: "-" + code + "-"}[q["where"]]
    elif kind == "short_id":
        code = "-".join([q["badid"]] + tail)
    else:
        code = "-".join(["t", q["cid"], "abc" if q["cut"] % 2 else q["power"], q["type"] if q["cut"] % 2 else "x"])
    ctx.tag(kind)
    errs = (ValueError, AssertionError)
    must_raise(errs, lambda: cost_from_str(code), f"cost_from_str({code!r})")
    if not (kind == "few" and q["cut"] == 3):
        must_raise(errs, lambda: build(code), f"parsing and building {code!r}")
    else:
        # three parts starting with an engine: 't' is not an identifier
        must_raise(errs, lambda: build(code), f"parsing and building {code!r}")
    return True


BADENG = ["j", "n", "jx", "pt", "T", "torch", "", "x", "tt", "np"]
BADID = ["nc", "NLD", "MC", "", "N", "NCL", "WC", "NC ", "LNC", "NNLC"]
CASES = [
    Case("decode", fixed(seed=SEED, cid=st.sampled_from(["NC", "NLC"]), power=st.one_of(st.sampled_from(POW), TENTH),
                         type=st.one_of(st.sampled_from(NUM), TENTH),
                         kappa=st.one_of(st.none(), st.sampled_from(KAP), st.integers(0, 10**6).map(lambda i: f"{i / 100:.2f}")),
                         d=dims(1, 4, 20), hl=st.booleans()), decode, 1200, 6000),
    Case("invalid", fixed(bad=st.sampled_from(["engine", "id", "few", "many", "dash", "short_id", "number"]), where=st.integers(1, 3),
                          engine=st.sampled_from(BADENG), badid=st.sampled_from(BADID),
                          cid=st.sampled_from(["NC", "NLC"]), power=st.sampled_from(POW),
                          type=st.sampled_from(NUM), kappa=st.one_of(st.none(), st.sampled_from(KAP)),
                          cut=st.integers(1, 3)), invalid, 900, 4000),
]
