#!/bin/bash
# nothing to compile: checks import /repo/src and numba compiles the kernels at run time; verify the tools are there
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, numba, zarr, netCDF4, Polygon, scipy"
