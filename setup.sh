#!/bin/bash
# Nothing to build: check that the interpreter and the package under test are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from mc import core; core.setup_environment(); print("setup ok")'
