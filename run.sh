#!/bin/bash
# Decide one property: ./run.sh C01
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
. ./env.sh
exec "$PY" check.py "$@"
