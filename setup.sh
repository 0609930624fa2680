#!/bin/bash
# Nothing to compile: check that the interpreter, jax and the code under test import.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH=/repo/src:lib /opt/venv/bin/python -c "import jax, equinox, scipy, flowMC; from jax.extend.random import define_prng_impl; print('ok')"
