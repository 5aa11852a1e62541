#!/bin/bash
# Nothing to build (pure Python, run from /repo's working tree): only make sure that the interpreter can run the checks.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VSM_REPO:-/repo}" /opt/venv/bin/python -c "import vspec_vsm, numpy, astropy, jax, tinygp; print('ready', vspec_vsm.__file__)"
