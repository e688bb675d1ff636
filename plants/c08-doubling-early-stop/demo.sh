#!/bin/bash
# exit 0 when the property holds on the sample, nonzero otherwise
export MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$HERE/demo.py"
