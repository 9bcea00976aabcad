#!/bin/bash
# Build the runnable copy of /repo's current tree that checks replay on
# (content-addressed under .cache; every check rebuilds it when needed).
cd "$(dirname "$0")" || exit 1
mkdir -p .cache evidence replays
python3-vt -c 'import z3, Cython' || exit 1
python3-vt -m symx.build bit || exit 1
