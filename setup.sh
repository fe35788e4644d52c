#!/bin/bash
# Nothing is compiled: make sure that what the checks need is there, and that the specifications parse.
cd "$(dirname "$0")" || exit 2
set -e
java -version 2>/dev/null
/opt/venv/bin/python -c 'import numpy, scipy, cvxpy'
mkdir -p evidence replays
tmp=$(mktemp -d)
for f in specs/*.tla; do
	java -Djava.io.tmpdir="$tmp" -DTLA-Library=specs -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >"$tmp/out" 2>&1 || { cat "$tmp/out"; exit 2; }
	if grep -q 'Fatal errors\|\*\*\* Errors' "$tmp/out"; then cat "$tmp/out"; exit 2; fi
done
rm -rf "$tmp"
echo setup ok
