#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC, the recorders run in the repository's own venv.
# Check that all parts are there and that the specifications parse.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, scipy, numba, ripser, matplotlib"
java -version 2>/dev/null
python3 tools/mkmanifest.py
bash tools/mkcfg.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd spec
for f in *.tla; do
  java -Djava.io.tmpdir="$t" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$t/out" 2>&1 || { cat "$t/out"; exit 1; }
done
echo "setup ok"
