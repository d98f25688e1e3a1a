#!/bin/bash
# Nothing to compile: checks that the interpreter and the harness modules load.
cd "$(dirname "$0")" || exit 2
env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
assert sys.version_info >= (3, 12), "sys.monitoring is needed"
import dst.run, dst.worker, dst.sched, dst.session, dst.world
print("harness loads")
P
