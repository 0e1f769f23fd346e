#!/bin/bash
# run with cwd = repository root, after the build
exec timeout 200 python3 -B "$(dirname "$0")/demo.py"
