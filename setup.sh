#!/bin/bash
# Nothing is built: checks import /repo at run time. Verifies the toolchain.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
PYTHONPATH=/repo:. exec /opt/venv/bin/python -W ignore -c '
from harness import deps; deps.install()
import hypothesis, jax, jax_cfd
print("hypothesis", hypothesis.__version__, "jax", jax.__version__, jax_cfd.__file__)'
