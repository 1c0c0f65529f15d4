#!/bin/bash
# setup.sh -- builds the framework once, which also warms the Go build cache.
set -u
cd "$(dirname "$0")/.." || exit 2
rm -rf .build/work/src; rm -f .build/work/instr.ok
tools/build.sh "$PWD/.build/work" && tools/build.sh "$PWD/.build/work" race
