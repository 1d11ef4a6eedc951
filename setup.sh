#!/bin/bash
# Builds nothing that outlives a run: checks that the toolchain the checks use is there.
set -e
cd "$(dirname "$0")"
rustc +nightly --version
python3 -m py_compile engine/*.py checks/*.py check.py
tmp=$(mktemp -d)
rustc +nightly -O --edition 2021 driver/main.rs -o "$tmp/mirdump"
rm -rf "$tmp"
