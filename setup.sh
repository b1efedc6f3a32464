#!/bin/bash
# Nothing to prepare: each check builds its harness from /repo's current tree.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 -c 'import checks; print(len(checks.CHECKS), "checks registered")'
