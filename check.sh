#!/bin/bash
# check.sh <property> [args]: one check, from /verif against /repo's working tree.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore run.py "$@"
