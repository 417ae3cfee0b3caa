#!/bin/bash
# Build everything once; every check builds again what changed.
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR/harness" || exit 3
cargo build --offline -q || exit 3
"$VERIF_DIR/ext.sh" cli || exit 3
exec "$VERIF_DIR/ext.sh" python
