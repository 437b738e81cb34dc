"""
Process bootstrap: environment and import path.

The checks run under /opt/venv/bin/python (the interpreter PyConform is built and
tested with).  Hypothesis lives in the verification venv; its site-packages directory
is appended at the END of sys.path so that numpy, netCDF4, ... are still PyConform's own.
"""

import os
import sys
import warnings

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault("OMPI_MCA_ess_singleton_isolated", "1")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)
    warnings.simplefilter("ignore")
    warnings.showwarning = lambda *a, **k: None  # (checks record the warnings they look at)
    # ply regenerates a (git tracked) table file next to the grammar when the grammar
    # changed; the checks must leave /repo alone, so tables are never written.
    import functools

    import ply.yacc

    if not isinstance(ply.yacc.yacc, functools.partial):
        ply.yacc.yacc = functools.partial(ply.yacc.yacc, write_tables=False)
