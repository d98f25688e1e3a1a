"""Worker: imports nannos once under the seams, then executes plans, each from a forked
pristine copy of itself. Speaks JSON lines with the driver."""
import importlib
import json
import os
import sys
import traceback

from . import core
from .core import HarnessError, Violation, ddmin, digest, rng_for


def load_check(pid):
    return importlib.import_module(f"dst.checks.{pid.lower()}").CHECK


class Runner:
    def __init__(self, check):
        self.check = check
        from . import boot

        self.nn = boot.boot(block=check.block) if check.boot else None
        if hasattr(check, "init"):
            check.init(self.nn)
        import gc

        gc.collect()
        gc.freeze()

    def execute(self, plan):
        """-> dict(log, stats) ; raises Violation / HarnessError"""
        return self.check.run(self.nn, plan)

    def one(self, seed, i, tier):
        plan = self.check.gen(rng_for(self.check.id, seed, i), i, tier)
        out = dict(i=i)
        try:
            plan = self.check.prepare(self.nn, plan)
            res = self.execute(plan)
            out.update(ok=True, digest=digest(res["log"]), stats=res["stats"])
        except Violation as v:
            out.update(ok=False, v=[v.cls, v.msg, v.step], plan=plan, digest=digest([v.cls, v.msg]), stats={})
        return out

    def fails_same(self, plan, cls):
        try:
            self.execute(self.check.prepare(self.nn, plan))
        except Violation as v:
            return v.cls == cls
        except HarnessError:
            return False
        return False

    def minimise(self, plan, cls, seconds=75):
        t0 = core.REAL["monotonic"]()
        budget = [250]

        def test(p):
            if core.REAL["monotonic"]() - t0 > seconds:
                budget[0] = 0
                return False
            budget[0] -= 1
            return self.fails_same(p, cls)

        def drop_ops(plan):
            for key in self.check.lists:
                def build(items, key=key):
                    p = json.loads(json.dumps(plan))
                    d = p
                    parts = [int(x) if x.isdigit() else x for x in key.split(".")]
                    for part in parts[:-1]:
                        d = d[part]
                    d[parts[-1]] = items
                    return p

                d = plan
                try:
                    for part in key.split("."):
                        d = d[int(part) if part.isdigit() else part]
                except (KeyError, TypeError, IndexError):
                    continue
                if not isinstance(d, list):
                    continue
                items = ddmin(list(d), lambda it: test(build(it)), budget)
                plan = build(items)
            return plan

        plan = self.check.concretise(self.nn, plan)
        if not self.fails_same(plan, cls):
            return None
        plan = drop_ops(plan)
        changed = True
        while changed and budget[0] > 0:
            changed = False
            for cand in self.check.shrink(plan):
                if budget[0] <= 0:
                    break
                if test(cand):
                    plan = cand
                    changed = True
                    break
        if budget[0] > 0:
            plan = drop_ops(plan)
        return plan


def main():
    pid = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(devnull, 2)

    def send(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    try:
        runner = Runner(load_check(pid))
    except BaseException:  # noqa
        send(dict(fatal=traceback.format_exc()))
        return 1
    send(dict(ready=True))
    for line in sys.stdin:
        m = json.loads(line)
        try:
            if m["cmd"] == "run":
                send(runner.one(m["seed"], m["i"], m["tier"]))
            elif m["cmd"] == "minimise":
                send(dict(plan=runner.minimise(m["plan"], m["cls"], m.get("seconds", 75))))
            elif m["cmd"] == "replay":
                try:
                    res = runner.execute(runner.check.prepare(runner.nn, m["plan"]))
                    send(dict(ok=True, digest=digest(res["log"])))
                except Violation as v:
                    send(dict(ok=False, v=[v.cls, v.msg, v.step]))
        except BaseException as e:  # noqa
            send(dict(error="".join(traceback.format_exception(e))[-5000:], i=m.get("i")))
    return 0


if __name__ == "__main__":
    sys.exit(main())
