"""Re-run one saved failure without Hypothesis: python harness/replay.py FILE."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import env  # noqa: E402,F401
import importlib  # noqa: E402
import json  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    from harness.core import Ctx, Violation, run_body
    mod = importlib.import_module(f"harness.props.{r['property'].lower()}")
    case = {c.name: c for c in mod.CASES}[r["case"]]
    try:
        run_body(case, r["params"], Ctx())
    except Violation as v:
        print(v)
        print(f"VIOLATION property={r['property']} replay={sys.argv[1]}")
        return 1
    print("the recorded input no longer fails")
    return 0


if __name__ == "__main__":
    sys.exit(main())
