#!/bin/bash
# run every check on the current tree, four at a time
cd "$(dirname "$0")/.."
seq -f C%02g 1 18 | xargs -P "${1:-3}" -I{} sh -c 'r=$(/opt/venv/bin/python -W ignore check.py {} 2>&1); e=$?; echo "$r" | sed "s/^/{} /"; echo "{} exit $e"'
