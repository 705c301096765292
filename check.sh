#!/bin/bash
# check.sh ID quick|thorough
cd "$(dirname "$0")" || exit 2
mkdir -p .build
bash lib/build.sh || { echo "build failed"; exit 2; }
python3 lib/run.py "$1" "${2:-quick}"
case $? in 0) exit 0;; 10) exit 1;; *) exit 2;; esac
