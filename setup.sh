#!/bin/bash
# nothing to build: the verifier is Python and reads /repo's current source on every run; check that the tools are there
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3" 
cvc5 --version >/dev/null
/opt/venv/bin/python -c "import PIL"
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 python3-vt -m pyver.selftest
