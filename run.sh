#!/bin/bash
# run.sh <ID> [options]: run one check against /repo's current tree
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/harness/run.py" "$@"
