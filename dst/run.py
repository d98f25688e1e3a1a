"""Driver: runs the simulated executions of one property over worker processes, judges the
outcome, minimises and replays a violation, writes the evidence file.

  python -m dst.run C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers K]
  python -m dst.run --replay FILE
"""
import argparse
import atexit
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")


def worker_env(check, extra=None):
    from .boot import ENV

    e = {k: v for k, v in os.environ.items() if not k.startswith("NANNOS_")}
    e.update(ENV)
    e.setdefault("PYTHONHASHSEED", "0")
    e.update(check.env)
    if check.scratch:
        from .backends import scratch_env

        e.update(scratch_env(os.path.join(os.environ["DST_SCRATCH"], "jax")))
    e.update(extra or {})
    return e


class Worker:
    def __init__(self, check, n, extra=None):
        self.n = n
        self.p = subprocess.Popen([PY, "-m", "dst.worker", check.id], cwd=HERE, env=worker_env(check, extra),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def send(self, m):
        self.p.stdin.write(json.dumps(m) + "\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            return dict(fatal=f"worker died with {self.p.poll()}")
        return json.loads(line)

    def stop(self, kill=False):
        try:
            if kill:
                self.p.kill()
            else:
                self.p.stdin.close()
            self.p.wait(10)
        except Exception:  # noqa
            self.p.kill()


def pool_run(check, seed, tier, runs, workers, cap, extra=None, order=1, stop_on_violation=True):
    """Execute runs (their number, or a list of indices).
    -> (results sorted by index, errors as (index, text), wall time)"""
    todo = queue.Queue()
    for i in list(range(runs) if isinstance(runs, int) else runs)[::order]:
        todo.put(i)
    res, errs = [], []
    stop = threading.Event()
    t0 = time.monotonic()

    def serve(n):
        w = Worker(check, n, extra)
        clean = True
        try:
            r = w.recv()
            if not r.get("ready"):
                errs.append((None, r.get("fatal", str(r))))
                stop.set()
                return
            while not stop.is_set() and time.monotonic() - t0 < cap:
                try:
                    i = todo.get_nowait()
                except queue.Empty:
                    break
                w.send(dict(cmd="run", seed=seed, i=i, tier=tier))
                r = w.recv()
                if "error" in r or "fatal" in r:
                    errs.append((i, r.get("error", r.get("fatal", ""))))
                    if len(errs) > 3:
                        stop.set()
                        break
                    if "fatal" in r:
                        w.stop()
                        w = Worker(check, n, extra)
                        w.recv()
                    continue
                res.append(r)
                if not r["ok"] and stop_on_violation:
                    stop.set()
        finally:
            w.stop()

    th = [threading.Thread(target=serve, args=(n,)) for n in range(workers)]
    [t.start() for t in th]
    [t.join() for t in th]
    return sorted(res, key=lambda r: r["i"]), errs, time.monotonic() - t0


def one_worker(check, m, extra=None):
    w = Worker(check, 0, extra)
    try:
        r = w.recv()
        if not r.get("ready"):
            return r
        w.send(m)
        return w.recv()
    finally:
        w.stop()


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
    return a


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("findings", []) if f["property"] == pid]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--no-minimise", action="store_true", help="do not minimise violations")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    from .worker import load_check

    if a.replay:
        r = json.load(open(a.replay))
        check = load_check(r["property"])
        if check.scratch:
            os.environ["DST_SCRATCH"] = tempfile.mkdtemp(prefix="dst-")
            atexit.register(shutil.rmtree, os.environ["DST_SCRATCH"], ignore_errors=True)
        out = one_worker(check, dict(cmd="replay", plan=r["plan"]))
        if out.get("ok") is False:
            print(f"VIOLATION property={r['property']} replay={a.replay}")
            print(f"  {out['v'][0]}: {out['v'][1]}")
            return 1
        if out.get("ok"):
            print(f"replay of {a.replay}: no violation")
            return 0
        print("harness error:", out.get("error") or out.get("fatal"))
        return 2

    check = load_check(a.prop)
    if check.scratch:
        os.environ["DST_SCRATCH"] = tempfile.mkdtemp(prefix="dst-")
        atexit.register(shutil.rmtree, os.environ["DST_SCRATCH"], ignore_errors=True)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    runs = a.runs or check.runs[tier]
    cap = a.cap or (480 if tier == "quick" else 3 * 3600)
    t0 = time.monotonic()
    print(f"property {check.id}: {check.title}; tier {tier}, seed {a.seed}, {runs} simulated runs, {a.workers} workers", flush=True)
    res, errs, wall = pool_run(check, a.seed, tier, runs, a.workers, cap)
    if 0 < len(errs) <= 3 and all(i is not None for i, _ in errs) and all(r["ok"] for r in res):
        # once more, one at a time: an overloaded machine may have ended a process
        again = sorted({i for i, _ in errs})
        for i, e in errs:
            print(f"run {i} gave no result and is repeated: {e.strip().splitlines()[-1][:200]}", flush=True)
        more, errs, w2 = pool_run(check, a.seed, tier, again, 1, cap)
        res, wall = sorted(res + more, key=lambda r: r["i"]), wall + w2
    bad = [r for r in res if not r["ok"]]
    good = [r for r in res if r["ok"]]
    known = known_findings(check.id)
    new = []
    for r in bad:
        for f in known:
            if f["cls"] == r["v"][0] and f["match"] in r["v"][1]:
                print(f"KNOWN-FINDING: property={check.id} {f['what']}")
                break
        else:
            new.append(r)
    code = 0
    if new:
        code = report(check, new, a)
    elif errs:
        print(f"harness error ({len(errs)}):\nrun {errs[0][0]}: {errs[0][1][:4000]}")
        code = 2
    elif len(res) < max(1, runs // 5):
        print(f"only {len(res)} of {runs} runs finished within the wall budget: no verdict")
        code = 3
    if not a.no_evidence:
        evidence(check, tier, a.seed, good, bad, wall, time.monotonic() - t0, len(new), runs)
    if code == 0:
        print(f"property {check.id} held on {len(good)} simulated runs ({wall:.0f}s)")
    return code


def report(check, new, a):
    """Minimise, write the replay file, confirm it in a fresh process."""
    for r in new[:3]:
        cls = r["v"][0]
        plan = r["plan"]
        print(f"run {r['i']} violates {check.id}: {cls}: {r['v'][1]}", flush=True)
        m = {} if a.no_minimise else one_worker(check, dict(cmd="minimise", plan=plan, cls=cls, seconds=75))
        cands = [p for p in (m.get("plan"), plan) if p]
        for p in cands:
            out = one_worker(check, dict(cmd="replay", plan=p))
            if out.get("ok") is False:
                from .core import digest, to_json_file

                path = os.path.join(HERE, "replays", f"{check.id}-{digest(p)[:12]}.json")
                to_json_file(path, dict(property=check.id, seed=a.seed, run=r["i"], cls=out["v"][0], message=out["v"][1],
                                        original_message=r["v"][1], minimised=p is not plan, plan=p))
                print(f"minimised: {out['v'][0]}: {out['v'][1]}")
                print(f"VIOLATION property={check.id} replay={path}", flush=True)
                return 1
        print(f"run {r['i']} did not violate again when replayed in a fresh process: {m} ", flush=True)
    print("harness error: violations that do not replay")
    return 2


def evidence(check, tier, seed, good, bad, wall, total, nviol, planned):
    stats = {}
    for r in good:
        merge(stats, r["stats"])
    inter = stats.pop("inter", [])
    nontriv = {r["digest"] for r in good if r["stats"].get("nontrivial")}
    stats.pop("nontrivial", None)
    from .core import rng_for

    samples = []
    for r in good[:2]:
        p = check.gen(rng_for(check.id, seed, r["i"]), r["i"], tier)
        samples.append(dict(run=r["i"], digest=r["digest"], plan=check.sample(p)))
    cov = dict(
        evaluations=len(good) + len(bad),
        distinct_nontrivial=len(nontriv),
        rule=check.rule,
        samples=samples,
        runs_planned=planned,
        runs_per_hour=round(3600 * (len(good) + len(bad)) / max(wall, 1e-9)),
        seeds="one root seed; run i is driven by SHA-256(property, root seed, i)",
        simulated_seconds=round(stats.pop("simtime", 0.0), 3),
        faults_injected=stats.pop("faults", {}),
        distinct_interleavings=len(set(inter)),
        interleaving_measure="distinct hashes of the sequence of thread switches with their source lines",
        counters=stats,
        components=check.components,
    )
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=list(check.assumptions), wall_s=round(total, 2), violations=nviol)
    from .core import to_json_file

    to_json_file(os.path.join(HERE, "evidence", f"{check.id}.json"), ev)


if __name__ == "__main__":
    sys.exit(main())
