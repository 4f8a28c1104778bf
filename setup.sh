#!/bin/bash
# Nothing to build: the verifier is Python. Checks that its parts are there.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
. ./env.sh
"$PY" -c 'import engine, z3; from engine import driver, concrete, symenv; import ros_bt_py.node; print("ok", z3.get_version_string())'
