#!/bin/bash
# Nothing is kept from this step: every check builds what it needs itself.
# It only verifies that the sandbox offers what the checks use.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, scipy, sys; assert sys.version_info >= (3, 12); sys.monitoring"
/opt/venv/bin/python -m cython --version
g++ --version | head -1
/opt/venv/bin/python -m compileall -q potsim check.py >/dev/null || true
echo ready
