"""Import the code under test from the working tree, and Hypothesis after it.

The tree is /repo unless VP_REPO names another one (only used while developing
the checks).  Stale byte code is never used: the import runs with a byte-code
prefix that does not exist.
"""

import importlib
import logging
import os
import sys
import warnings

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")

sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")

logging.getLogger().addHandler(logging.NullHandler())


class BootError(Exception):
    pass


def load():
    sys.path.insert(0, SRC)
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(REPO, ".no-such-folder-for-pyc")
    try:
        import pygmm

        if os.path.realpath(pygmm.__file__) != os.path.realpath(os.path.join(SRC, "pygmm", "__init__.py")):
            raise BootError("pygmm was imported from %s" % pygmm.__file__)
        for name in ("baker_jayaram_2008", "kishida_2017", "pinilla_ramos_et_al_2023", "pinilla_ramos_et_al_2024", "model"):
            importlib.import_module("pygmm." + name)
    finally:
        sys.pycache_prefix = old
    extra = "/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2]
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(extra)
        import hypothesis  # noqa: F401
    warnings.simplefilter("ignore")
    return pygmm
