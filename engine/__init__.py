import os
import sys

_p = os.environ.get('VP_SOLVERS', '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
if _p not in sys.path:
    sys.path.append(_p)
