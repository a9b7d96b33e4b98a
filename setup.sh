#!/bin/bash
# everything is built by the checks from the current tree of the repository. only makes sure that the tools are here
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
for t in clang java python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
