#!/bin/bash
# Nothing to compile: the checks import nnx from /repo's working tree at run time.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import nnx, jax
assert nnx.__file__.startswith('/repo/'), nnx.__file__
print('ok', jax.__version__)"
