#!/bin/bash
# Usage: run.sh <property id>. Rebuilds the harness (and /repo through its path dependency), then decides the property.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR
build() {
    local log; log="$(mktemp)"
    if ! (cd "$here/harness" && cargo build --release --offline --locked --bin verif "$@" >"$log" 2>&1); then
        echo "BUILD FAILED" >&2; tail -50 "$log" >&2; rm -f "$log"; exit 2
    fi
    rm -f "$log"
}
build
if [ "$1" = C22 ]; then
    # The same tree without the lookup-debugging feature.
    build --no-default-features --target-dir target-nd
    export VERIF_PEER="$here/harness/target-nd/release/verif"
fi
exec "$here/harness/target/release/verif" check "$1"
