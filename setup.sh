#!/bin/sh
# Nothing is kept between runs: every check builds the IR and the native library from /repo itself.
set -e
cd "$(dirname "$0")"
mkdir -p evidence build
python3-vt -c 'import z3'
rustup run nightly rustc --version >/dev/null
