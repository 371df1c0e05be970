"""Maintainer's tool, never run by a check: prints what a run found, as it
would be written in KNOWN_FINDINGS.txt, for review.
usage: list_known.py C12 quick|thorough"""
import importlib
import json
import sys

sys.path.insert(0, __file__.rsplit('/', 2)[0])
from harness import core  # noqa: E402

prop, tier = sys.argv[1:3]
rep = core.Report(prop, tier)
importlib.import_module(f'harness.checks.{prop.lower()}').run(rep, tier)
print(json.dumps({
    'kinds': {k: [n, rep.digests[k]] for k, n in sorted(rep.counts.items())},
    'inputs': {k: sorted({r[0] for r in rows}) for k, rows in rep.viol.items()},
}))
