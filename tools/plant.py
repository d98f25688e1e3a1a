"""Confirm planted bugs: plant.py ID...   (ids under seeded/; needs edit.py or patch.diff there)

For each: make a scratch copy of /repo, apply the patch, run the stable tests against the copy,
run the demonstration with and without the patch. Prints one line per bug.
"""
import json, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(d):
    out = d + ".json"
    s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}").replace("-n 8", "-n 4")
    sh = d + ".test.sh"
    open(sh, "w").write(s)
    env = dict(os.environ, PYTHONPATH=d)
    subprocess.run(["bash", sh, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=3000)
    r = json.load(open(out))
    passed = set(r["passed"]) if "passed" in r else {k for k, v in r.items() if v == "passed"}
    return sorted(STABLE - passed)


def demo(sd, d):
    p = subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-300:]


def one(bid, with_tests):
    sd = os.path.join(ROOT, "seeded", bid)
    d = f"/tmp/plant/{bid}"
    subprocess.run(["rm", "-rf", d]); os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    r0 = demo(sd, d)
    p = subprocess.run(["git", "-C", d, "apply", os.path.join(sd, "patch.diff")], capture_output=True, text=True)
    if p.returncode:
        return bid, "patch does not apply: " + p.stderr[:200]
    r1 = demo(sd, d)
    bad = tests(d) if with_tests else "not run"
    shutil.rmtree(d)
    for f in glob.glob(d + ".*"): os.remove(f)
    ok = r0[0] == 0 and r1[0] != 0 and not (bad if with_tests else False)
    return bid, f"{'OK ' if ok else 'BAD'} clean={r0[0]} patched={r1[0]} failing={bad if with_tests is False else bad[:4]}" + ("" if ok else f"\n   clean: {r0[1]}\n   patched: {r1[1]}")


if __name__ == "__main__":
    a = sys.argv[1:]
    t = "--no-tests" not in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with ThreadPoolExecutor(2) as ex:
        for bid, msg in ex.map(lambda b: one(b, t), ids):
            print(bid, msg, flush=True)
