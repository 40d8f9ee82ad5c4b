#!/bin/bash
# Checks that the tools are there; every check builds what it needs from /repo's current tree itself.
set -e
cd "$(dirname "$0")"
python3 --version; java -version 2>&1 | head -1; g++ --version | head -1
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p build evidence
