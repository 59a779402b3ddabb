#!/bin/bash
# Nothing is kept between runs: every check compiles its own drivers.  Only see that the tools are there.
set -e
java -version >/dev/null 2>&1
g++ --version >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/../evidence"
