#!/bin/sh
# Nothing to build: the checks import the code from /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -c "
from vp import boot
boot.load()
import hypothesis, numpy, scipy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
"
