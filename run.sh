#!/bin/bash
# run.sh <property id> <quick|thorough> [--replay FILE]
# Runs one check against the code in /repo, from a scratch directory that is removed afterwards.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VP_REPO="${VP_REPO:-/repo}" VP_HOME="$HERE"
export VERIF_SEED="${VERIF_SEED:-1}"
D=$(mktemp -d /tmp/vp.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
export VP_SCRATCH="$D" TMPDIR="$D/tmp" PYTHONPYCACHEPREFIX="$D/pyc"
mkdir -p "$D/tmp" "$D/cwd"
# the code under test comes first on the path, then the harness
export PYTHONPATH="$VP_REPO/src:$HERE"
cd "$D/cwd" || exit 3
/opt/venv/bin/python -m vp.main "$@"
exit $?
