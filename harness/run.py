"""Run the check of one property: python harness/run.py <ID>."""
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import env  # noqa: E402

if os.environ.get("VERIF_CHILD") != "1":
    # hash randomisation is fixed at interpreter start
    os.environ["VERIF_CHILD"] = "1"
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])

import hashlib  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import math  # noqa: E402
import multiprocessing as mp  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

HOME = tempfile.mkdtemp(prefix="verif-hyp-")
import hypothesis.configuration  # noqa: E402

hypothesis.configuration.set_hypothesis_home_dir(HOME)

from harness.core import Violation, Ctx, run_shard, run_body  # noqa: E402
from harness import known  # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def plain(v):
    """Strict JSON: non-finite numbers as text."""
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(w) for w in v]
    if isinstance(v, float) and not math.isfinite(v):
        return str(v)
    return v


def derive(*parts):
    raw = "/".join(map(str, parts)).encode()
    return int.from_bytes(hashlib.blake2b(raw, digest_size=7).digest(), "big")


def worker(task_q, out_q, cases, deadline, stop):
    while True:
        task = task_q.get()
        if task is None:
            return
        i, name, seed, n = task
        try:
            r = run_shard(cases[name], seed, n, deadline, stop)
        except BaseException:
            from harness.core import ShardResult
            r = ShardResult(name)
            r.error = traceback.format_exc()[-4000:]
        out_q.put((i, r))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mult = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_CASE")
    t0 = time.monotonic()
    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "3000"))
    mod = importlib.import_module(f"harness.props.{pid.lower()}")
    cases = {c.name: c for c in mod.CASES if only is None or c.name == only}

    for line in known.report(pid, cases):
        print(line, flush=True)

    ctx = mp.get_context("fork")
    task_q, out_q, stop = ctx.Queue(), ctx.Queue(), ctx.Event()
    tasks = []
    for c in cases.values():
        n = max(1, int(c.examples(tier) * mult))
        k = c.shards or max(1, min(WORKERS, n // 25))
        for s in range(k):
            m = n // k + (1 if s < n % k else 0)
            if m:
                tasks.append((c.name, derive(seed, tier, pid, c.name, s), m))
    # big shards first, interleaved between cases
    tasks.sort(key=lambda t: (-t[2], t[0]))
    for i, t in enumerate(tasks):
        task_q.put((i, *t))
    procs = []
    for _ in range(min(WORKERS, len(tasks))):
        task_q.put(None)
    deadline = t0 + budget
    for _ in range(min(WORKERS, len(tasks))):
        p = ctx.Process(target=worker, args=(task_q, out_q, cases, deadline, stop), daemon=True)
        p.start()
        procs.append(p)
    results, errors = {}, []
    hard = deadline + 120
    while len(results) < len(tasks):
        try:
            i, r = out_q.get(timeout=5)
            results[i] = r
        except Exception:
            if time.monotonic() > hard:
                errors.append("time budget exceeded by a worker")
                break
            if not any(p.is_alive() for p in procs) and out_q.empty():
                if len(results) < len(tasks):
                    errors.append("a worker process died")
                break
    for p in procs:
        if p.is_alive():
            p.join(timeout=2)
            if p.is_alive():
                p.terminate()

    rs = [results[i] for i in sorted(results)]
    evaluations = sum(r.evaluations for r in rs)
    digests = set().union(*[r.digests for r in rs]) if rs else set()
    tags, samples, seen = {}, [], {}
    per_case = {}
    for r in rs:
        for k, v in r.tags.items():
            tags[f"{r.case}:{k}"] = tags.get(f"{r.case}:{k}", 0) + v
        per_case[r.case] = per_case.get(r.case, 0) + r.evaluations
        if r.samples and seen.get(r.case, 0) < 1:
            seen[r.case] = seen.get(r.case, 0) + 1
            samples.append({"case": r.case, "params": r.samples[0]})
        if r.error:
            errors.append(f"[{r.case}] {r.error}")
    cut = sum(r.cut for r in rs)

    violations = {}
    for r in rs:
        if r.violation and (r.case not in violations
                            or len(json.dumps(r.violation[0])) < len(json.dumps(violations[r.case][0]))):
            violations[r.case] = r.violation

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(digests),
            "rule": mod.RULE, "samples": samples,
            "per_case": per_case, "classes": dict(sorted(tags.items())),
            "skipped_for_time": cut,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(env.VERIF, "evidence", f"{pid}.json")
    with open(path, "w") as f:
        json.dump(plain(ev), f, indent=1, allow_nan=False)

    if violations:
        rdir = os.path.join(env.VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for name, (params, msg) in sorted(violations.items()):
            rp = os.path.join(rdir, f"{pid}-{name}.json")
            with open(rp, "w") as f:
                json.dump({"property": pid, "case": name, "params": params, "message": msg}, f, indent=1)
            print(f"[{pid}/{name}] {msg}\n  params: {json.dumps(params)}")
            print(f"VIOLATION property={pid} replay={rp}", flush=True)
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    if evaluations == 0:
        print("nothing was evaluated", file=sys.stderr)
        return 2
    print(f"{pid}: held on {evaluations} evaluations, {len(digests)} distinct non-trivial, "
          f"{ev['wall_s']} s" + (f", {cut} skipped for time" if cut else ""))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    shutil.rmtree(HOME, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
