#!/bin/bash
# Builds the libc shim and checks that the interpreter and naima import.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
/opt/venv/bin/python -c "
from simlib import boot
print(boot.build_shim())
"
