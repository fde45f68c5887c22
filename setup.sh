#!/bin/bash
# Builds the harness once, offline, in both feature configurations (the second is used by C22).
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR
cd "$here/harness" && cargo build --release --offline --locked --bin verif &&
cargo build --release --offline --locked --bin verif --no-default-features --target-dir target-nd
