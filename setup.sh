#!/bin/bash
# nothing to install: every check assembles its proof units and builds the executable contracts from /repo itself
set -e
command -v verus cargo python3 >/dev/null
