#!/bin/bash
# Nothing to build: checks are Python and import MagPI from /repo. Verifies that the interpreter and libraries are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "harness")
import run
run.setup_paths()
import hypothesis, jax, numpy, scipy, magpi
print("hypothesis", hypothesis.__version__, "jax", jax.__version__, "magpi", magpi.__file__)
P
