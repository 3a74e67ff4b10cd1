"""Known findings: specific failing inputs recorded in known_findings.txt.

Lines of the file:
  known: property=<id> case=<case> params=<json> :: <what fails>
  fixed: property=<id> <commit> <what failed>
A `known` line is a probe: the input is evaluated on every run and reported
when it still fails. It suppresses nothing else; `fixed` lines suppress nothing.
"""
import json
import os
import re

from .env import VERIF
from .core import Ctx, Violation, run_body

FILE = os.path.join(VERIF, "known_findings.txt")
LINE = re.compile(r"^known: property=(\S+) case=(\S+) params=(\{.*\}) :: (.*)$")


def entries():
    if not os.path.exists(FILE):
        return
    with open(FILE) as f:
        for line in f:
            m = LINE.match(line.strip())
            if m:
                yield m.group(1), m.group(2), json.loads(m.group(3)), m.group(4)


def report(pid, cases):
    out = []
    for prop, case, params, what in entries():
        if prop != pid or case not in PROBES:
            continue
        try:
            run_body(PROBES[case], params, Ctx())
        except Violation:
            out.append(f"KNOWN-FINDING: property={pid} {what}")
    return out


PROBES = {}
