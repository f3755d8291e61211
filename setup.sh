#!/bin/bash
# Nothing to install: every check builds its engine and harness itself. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
for t in g++ python3 addr2line; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence replays
g++ -std=c++17 -O2 -w -fsyntax-only engine/mcrt.cc engine/enumrt.cc
echo ok
