#!/bin/bash
# builds the MIR dumper, the MIR dump of /repo's current tree and the native replayer (offline)
cd "$(dirname "$0")" && exec python3-vt -c "import sys; sys.path.insert(0, 'engine'); import lib; lib.ensure_built()"
