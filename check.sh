#!/bin/bash
# check.sh ID: decide property ID from /repo's current source (exit 0 holds, 1 violated)
cd "$(dirname "$0")" || exit 2
exec python3 rules/run.py "$1"
