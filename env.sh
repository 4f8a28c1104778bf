# Sourced by every check: the interpreter, ROS python packages, /repo, the stand-ins and the solver bindings.
. /opt/vp/env.sh
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export PYTHONPATH="$VERIF_DIR:$PYTHONPATH:$VERIF_DIR/stubs"
export VP_SOLVERS=/opt/veriftools/pyvenv/lib/python3.12/site-packages
PY=/opt/venv/bin/python
