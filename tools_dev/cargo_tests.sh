#!/bin/bash
# Run the repository's Rust tests against the pyo3 stand-in (development aid).
set -e
python3 -c "
import sys; sys.path.insert(0,'/verif')
from bbv import rust; rust.build('ship')"
D=$(mktemp -d /tmp/ct.XXXXXX)
cp -a /verif/build/main/rust-ship/. $D
cp -r /repo/src/* $D/ext/src/
cd $D/ext && CARGO_TARGET_DIR=$D/target timeout 1200 cargo test --offline -q "$@" 2>&1 | grep -v "^ *at \|^warn" | head -150
rm -rf "$D"
