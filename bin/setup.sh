#!/bin/bash
# Nothing to install: check the tools and warm the build of the current tree.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys; sys.path.insert(0, 'bin')
import vlib
print(vlib.build())
P
