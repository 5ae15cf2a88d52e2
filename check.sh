#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 9
tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp)"
if ! ./sim/build.sh >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    exit 9
fi
rm -f "$log"
exec ./target/x86_64-unknown-linux-gnu/debug/afsim check "$1" "$tier"
