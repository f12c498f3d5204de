#!/bin/sh
# Builds the harness from /repo's working tree (the checks rebuild it when /repo changes).
cd "$(dirname "$0")" && exec python3 -c "import sys; sys.path.insert(0, 'vlib'); sys.dont_write_bytecode = True; import common; common.build()"
