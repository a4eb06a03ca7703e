#!/bin/bash
# Verifies the toolchain and builds the library variants once; checks rebuild on their own.
cd "$(dirname "$0")" || exit 1
command -v gcc g++ nauty-geng python3 >/dev/null || { echo "missing tool"; exit 1; }
mkdir -p build evidence replays
for v in opt asan debug dasan zasan steps; do bash ./buildlib.sh $v || exit 1; done
