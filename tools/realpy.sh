#!/bin/bash
# run python with the real discodop, all extension modules built
cd /verif || exit 1
d=$(python3-vt -c "
import os
from symx import build
print(build.build(os.environ.get('SYMX_REPO','/repo'), build.ALL))")
PYTHONPATH="$d" exec /opt/venv/bin/python "$@"
