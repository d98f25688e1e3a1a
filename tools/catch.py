"""Run the quick check of each planted bug's property against a scratch copy with the bug: catch.py [ID...]"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
extra = [a for a in args if a.startswith("C")]
ids = [a for a in args if a not in extra] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for bid in ids:
    sd = os.path.join(ROOT, "seeded", bid)
    pid = json.load(open(os.path.join(sd, "meta.json")))["property"]
    d = f"/tmp/catch/{bid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo/nannos", d], check=True)
    subprocess.run(["git", "apply", "--directory=" + d.lstrip("/"), os.path.join(sd, "patch.diff")], cwd="/", check=True)
    for c in extra or [pid]:
        t = time.time()
        p = subprocess.run(["./check.sh", c, "quick", "--no-evidence"], cwd=ROOT, env=dict(os.environ, DST_REPO=d), capture_output=True, text=True)
        last = [l for l in p.stdout.splitlines() if l.startswith(("minimised", "property"))][-1:] or [p.stdout[-200:]]
        print(bid, c, "CAUGHT" if p.returncode == 1 else f"missed({p.returncode})", f"{time.time()-t:.0f}s", last[0][:160], flush=True)
    shutil.rmtree(d)
