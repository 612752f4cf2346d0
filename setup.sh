#!/bin/bash
# Nothing to build: check that the interpreter, the library and the explorer load.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3
mkdir -p evidence replays
exec /opt/venv/bin/python -c "from mc import rng, explore, models, report; import fbs.samplers, fbs.sdes; print('ready')"
