#!/bin/sh
export DV_HOME="$(cd "$(dirname "$0")/.." && pwd)"
# python with z3 (verification tools) and the repository's numpy
exec /opt/venv/bin/python -c '
import os, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.environ["DV_HOME"])
import runpy
sys.argv = sys.argv[1:]
sys.path.insert(0, os.environ["DV_HOME"])
runpy.run_path(sys.argv[0], run_name="__main__")' "$@"
