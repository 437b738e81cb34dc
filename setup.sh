#!/bin/bash
# Nothing is compiled: the checks import PyConform from /repo's working tree.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B - <<'P'
import sys
sys.path.insert(0, ".")
from pbt import bootstrap
bootstrap.setup()
import hypothesis, numpy, netCDF4, cf_units
import pyconform.dataflow
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "pyconform", pyconform.__file__)
P
