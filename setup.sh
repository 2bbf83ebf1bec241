#!/bin/bash
# Nothing to build: the checks import /repo/src and transpile /repo/src/js on the fly.
# This only makes sure that the tools they use are there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "/repo/src")
import reactpy, anyio, asgiref, lxml
print("reactpy", reactpy.__version__, reactpy.__file__)
PY
node --version
test -d /opt/veriftools/node/node_modules/esbuild -o -d /opt/veriftools/node/node_modules/typescript
echo ok
