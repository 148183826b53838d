#!/bin/bash
# Builds the harness and lets TLC explore every slice of the specification.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 1
bash build.sh & b=$!
python3 warm.py; w=$?
wait $b || exit 1
exit $w
