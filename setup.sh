#!/bin/bash
# Builds everything once; each check builds again from /repo's current tree (reusing this if it is there).
cd "$(dirname "$0")" && exec python3 tools/check.py --build-only
