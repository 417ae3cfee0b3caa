#!/bin/bash
# run.sh ID: build the harness against /repo's working tree and decide one property.
# run.sh --replay FILE: run one replay file.
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR" || exit 3
log=$(mktemp)
if ! (cd harness && cargo build --offline -q) >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "ERROR: the harness does not build" >&2
    exit 3
fi
id=$1
[ "$id" = --replay ] && id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -n 1)
case $id in
C25 | C26 | C27 | C28) part=cli ;;
C29) part=python ;;
*) part= ;;
esac
if [ -n "$part" ] && ! "$VERIF_DIR/ext.sh" "$part" >"$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "ERROR: the $part does not build" >&2
    exit 3
fi
rm -f "$log"
if [ "$1" = --replay ]; then
    exec harness/target/debug/mcheck replay "$2"
fi
exec harness/target/debug/mcheck run "$1"
