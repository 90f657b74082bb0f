#!/bin/bash
# Nothing has to be built beforehand: every check compiles what it needs.
# Confirm that the tools are there.
set -e
cd "$(dirname "$0")"
for t in g++ java mpiexec python3; do
  PATH=$PATH:/usr/bin command -v $t > /dev/null || { echo "missing: $t"; exit 1; }
done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence .cache .work replays
echo "ready"
