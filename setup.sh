#!/bin/bash
# Checks that the toolchain and the source rewriter work, and warms the build cache.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec python3 -B bin/setup.py
