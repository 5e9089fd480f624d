#!/bin/bash
# Nothing has to be compiled ahead: the checks import /repo/src and compile it (numba) in a private cache at each run
cd "$(dirname "$0")/.." || exit 1
/opt/venv/bin/python -c "import sys; sys.dont_write_bytecode = True; import numpy, numba, netCDF4, zarr" || exit 1
/opt/venv/bin/python -c "import json; json.load(open('MANIFEST.json')); [json.loads(l) for l in open('properties.jsonl')]"
