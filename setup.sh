#!/bin/bash
# Nothing to install: checks run straight from the committed files with /opt/venv. Verify that they can.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
/opt/venv/bin/python -B -m py_compile vlib/*.py checks/*.py >/dev/null && find . -name __pycache__ -prune -exec rm -r {} + 
/opt/venv/bin/python -B -c "import numpy, scipy, sklearn, Cython; print('setup ok')"
