#!/bin/bash
# Verify that the interpreter, the repository, the simulator and the C++ drivers build and that runs replay exactly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -W ignore tools/selftest.py --quick
