#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.  Fails early if the
# simulator cannot start.
. /opt/vp/env.sh
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PYTHONWARNINGS=ignore exec "$PY" -c "
from simlib import world
w = world.World(2)
print('simulator ready')"
