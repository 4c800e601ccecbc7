#!/bin/bash
# Nothing to compile: checks that the interpreter and the package are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from mc import core; core.boot(); print('ok')"
