#!/bin/bash
# check.sh <property> [--tier quick|thorough]: build the harness against /repo's
# working tree and run one property's check. See DESIGN.md.
cd "$(dirname "$0")" || exit 3
export HOME="${HOME:-/root}"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
export RUSTUP_TOOLCHAIN="${FSPROP_TOOLCHAIN:-1.88.0}"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$(mktemp)
if ! cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir harness/target >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "HARNESS ERROR: the harness does not build against /repo"
    exit 3
fi
rm -f "$log"
mkdir -p out evidence
exec harness/target/debug/fsprop "$@" --out "$PWD/out"
