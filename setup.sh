#!/bin/bash
# Nothing to build (pure Python); check that the interpreter can load the code and the harness.
cd "$(mktemp -d)" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VP_REPO:-/repo}/src:$OLDPWD"
/opt/venv/bin/python -c "import pymars, cantera, numpy, vp.core, vp.gen, vp.oracle; print('ready')"
rc=$?
D=$(pwd); cd /; rm -rf "$D"; exit $rc
