#!/bin/sh
# nothing to build: the verifier is Python and loads /repo's sources on every run
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python -B -c "import pyvc.solver, pyvc.loader"
