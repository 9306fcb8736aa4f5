#!/bin/bash
# Nothing to build: checks import onepower from /repo/src. Verify the interpreter and dependencies are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vlib import common; common.load_target(); print('ok')"
