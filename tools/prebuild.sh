#!/bin/bash
# Rebuilds the committed extractor binary after a change to pextract.cpp.
cd "$(dirname "$0")/.." || exit 2
find bin -name 'pextract-*' -delete
exe=$(python3 -c 'import sys; sys.path.insert(0,"sa"); import facts; print(facts.extractor())')
cp "$exe" bin/ && ls -la bin
