#!/bin/bash
# Nothing is compiled: check that the tools the checks use are present and every specification parses.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import sympy, antlr4, timeout_decorator'
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd spec; for f in *.tla; do
  java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$tmp/out" 2>&1 \
    || { cat "$tmp/out"; exit 1; }
done
echo "specifications parse"
