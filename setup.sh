#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.  Verify that the tools are there.
set -e
cd "$(dirname "$0")"
command -v tlc >/dev/null
/opt/venv/bin/python -c 'import numpy, toolz, dask, distributed'
java -version >/dev/null 2>&1
mkdir -p evidence
echo setup ok
