#!/bin/bash
# Build the ordinary Python package once, as a check of the tool chain.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH LD_PRELOAD
exec /opt/venv/bin/python -m verifkit.build py
