#!/bin/bash
# builds the harness and parses the specification
cd "$(dirname "$0")/.." || exit 2
mkdir -p .build evidence
bash lib/build.sh || exit 2
echo ok
