#!/bin/bash
# Run one reported input again on the real code: ./replay.sh replays/C01-....json
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
. ./env.sh
exec "$PY" - "$1" <<'P'
import json, subprocess, sys, tempfile
d = json.load(open(sys.argv[1]))
print(d['failed_obligation'])
if d.get('trace') is None:
    print(d['detail']); sys.exit(0)
with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
    json.dump(d['trace'], f); f.flush()
    subprocess.run([sys.executable, '-m', 'engine.worker', 'replay', d['spec'], d['harness'], '--trace', f.name])
P
