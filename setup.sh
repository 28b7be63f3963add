#!/bin/sh
# nothing is built: the checks run the Python code of /repo as it is; make sure it and the engines import
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "
import sys; sys.path[:0] = ['.', '/repo/lib']
import mc.core, mc.xmlmodel, sldr.ldml, sldr.ldml_merge"
