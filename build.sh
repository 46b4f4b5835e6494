#!/bin/bash
# Builds the simulator with the library from /repo's working tree, offline, into sim/target.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/sim/target" RUSTC_WRAPPER="$here/sim/wrap.sh" CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0; unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo build --offline --locked --quiet
