#!/bin/bash
# Builds everything the checks share.
cd "$(dirname "$0")" && exec python3 -c '
import sys; sys.path.insert(0, "tools")
import vlib
vlib.ir(); vlib.native()'
