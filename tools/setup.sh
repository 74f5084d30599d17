#!/bin/sh
# Nothing is installed: every check compiles its harness and the sources it needs from /repo's working tree.
set -e
g++ --version | head -1
python3 --version
mkdir -p evidence
