#!/bin/bash
# Nothing to build: checks that the interpreter, the libraries and the package can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "
from pbt import core
core.bootstrap(); core.load_package(True)
import hypothesis, torch
print('hypothesis', hypothesis.__version__, 'torch', torch.__version__)"
