#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/target (offline).
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL CARGO_INCREMENTAL RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTC_WRAPPER="$here/rustc-wrap.sh" CARGO_TARGET_DIR="$here/../target" CARGO_NET_OFFLINE=true
cd "$here" && exec cargo build --offline --target x86_64-unknown-linux-gnu "$@"
