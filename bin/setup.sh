#!/bin/bash
# Nothing is kept between runs; only verify that the tools are there.
set -e
for t in java clang++ g++ python3; do command -v $t >/dev/null; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p "$(dirname "$0")/../evidence"
