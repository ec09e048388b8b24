#!/bin/bash
# check.sh <property> [options]: run the contracts of one property against /repo's working tree
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
unset PYTHONPATH VIRTUAL_ENV
for v in $(env | grep -o '^OTEL_[A-Z0-9_]*'); do unset "$v"; done
exec /opt/venv-pb5/bin/python -B -m pyvc.run "$@"
