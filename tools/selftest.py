"""Determinism: the same seeds must give the same executions whatever runs them.

  python tools/selftest.py [RUNS] [Cxx ...]

Every check executes RUNS runs of one seed (a) on one worker, (b) on seven workers with another
hash seed, (c) on three workers in reverse order with a third hash seed and another environment size.
All digests (normalised trace and answers of each run) must agree."""
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.run import pool_run  # noqa
from dst.worker import load_check  # noqa

a = sys.argv[1:]
runs = int(a.pop(0)) if a and a[0].isdigit() else 24
ids = a or [f[:-3].upper() for f in sorted(os.listdir(os.path.join(ROOT, "dst", "checks"))) if f[0] == "c" and f[1:3].isdigit()]
bad = 0
for pid in ids:
    check = load_check(pid)
    os.environ["DST_SCRATCH"] = tempfile.mkdtemp(prefix="dst-")
    ways = []
    for workers, extra, order in [(1, {}, 1), (7, dict(PYTHONHASHSEED="77"), 1), (3, dict(PYTHONHASHSEED="31337", DST_PADDING="x" * 5000), -1)]:
        res, errs, _ = pool_run(check, 987, "quick", runs, workers, 1800, extra=extra, order=order)
        ways.append(({r["i"]: r["digest"] for r in res}, errs))
    shutil.rmtree(os.environ["DST_SCRATCH"], ignore_errors=True)
    diff = [i for i in range(runs) if len({w[0].get(i) for w in ways}) > 1 or ways[0][0].get(i) is None]
    errs = [e for w in ways for e in w[1]]
    bad += bool(diff or errs)
    print(pid, f"{runs} runs, 3 ways:", "identical" if not diff else f"DIFFERENT {diff}", errs[:1] or "", flush=True)
sys.exit(bad > 0)
