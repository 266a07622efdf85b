#!/bin/sh
# Builds the framework from the committed files (offline): the BigInteger override of module Rat.
set -e
cd "$(dirname "$0")"
mkdir -p build/classes evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/Rat.java
/opt/venv/bin/python -B -c "import numpy"
echo ready
