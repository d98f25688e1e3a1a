"""Writes /verif/MANIFEST.json from the registered checks."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.check import Check  # noqa
PURE = "Pure function of its input: no schedule, clock, fault, history or shared state takes part, so there is nothing for a simulator to decide; "
NA = {
 "N01": PURE + "convergence is a statement about mathematics over increasing truncation, not about executions.",
 "N02": PURE + "harmonic truncation depends on lattice and size alone.",
 "N03": PURE + "rasterisation depends on shape and lattice alone.",
 "N04": PURE + "the transforms are stateless wrappers.",
 "N05": PURE + "projection, interpolation and filtering are stateless.",
 "N06": PURE + "vector fields depend on the permittivity map alone.",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
        continue
    if not os.path.exists(os.path.join(ROOT, "dst", "checks", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    c = importlib.import_module(f"dst.checks.{pid.lower()}").CHECK
    checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid} quick", thorough_cmd=f"./check.sh {pid} thorough",
        technique=c.technique, level=c.level, level_note=c.level_note or
        "Seeded search: a clean batch is evidence over the explored runs, not proof. Trusts the simulator's seams and the reference answers (fresh objects in separate processes or a small model)."))
out = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks were needed in /repo: all seams (clock, threads, locks, joblib workers, numerical kernels, log streams, optional packages) are installed from outside.")
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), len(na))
