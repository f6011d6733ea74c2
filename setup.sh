#!/bin/sh
# nothing to build: checks execute /repo's working tree directly; verify the toolchain is importable
cd "$(dirname "$0")" && JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from vlib import boot
import numpy, z3, numga.backend.numpy.context
print('ok', z3.get_version_string())"
