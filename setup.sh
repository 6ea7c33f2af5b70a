#!/bin/sh
# nothing to build: the encodings are regenerated from /repo on every run
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())' && /opt/venv/bin/python -c 'import cocotb, cocotb_bus'
