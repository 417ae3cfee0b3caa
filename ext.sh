#!/bin/bash
# ext.sh cli|python: build the command-line tool or the Python package of /repo's working tree
# into target-ext.
. "$(dirname "$0")/env.sh"
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR="$VERIF_DIR/target-ext"
cd /repo || exit 3
case $1 in
cli) exec cargo build --offline --locked -q -p math-core-cli ;;
python)
    export PYO3_PYTHON=/opt/vp/pyvenv/bin/python
    cargo build --offline --locked -q -p math-core-python || exit 3
    mkdir -p "$CARGO_TARGET_DIR/py"
    rm -rf "$CARGO_TARGET_DIR/py/math_core"
    cp -r /repo/python/math_core "$CARGO_TARGET_DIR/py/" || exit 3
    exec cp "$CARGO_TARGET_DIR/debug/libmath_core_python.so" "$CARGO_TARGET_DIR/py/math_core/_math_core_rust.abi3.so"
    ;;
esac
