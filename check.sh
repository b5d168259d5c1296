#!/bin/bash
# check.sh PROPERTY quick|thorough            explore one property on /repo's working tree
# check.sh PROPERTY quick --replay FILE       re-run one recorded choice sequence, verbosely
# check.sh build                              build only
# check.sh conform                            replay traces of the simulated world on real sockets
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$here/target
export RUSTC_WRAPPER= MC_ROOT=$here
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$here/target" "$here/evidence"
# Cargo goes by modification times: what was built from other contents is thrown away, whatever the times say.
repo=$(sed -n 's/^htrpc = { path = "\(.*\)" }/\1/p' "$here/harness/Cargo.toml")
contents=$(find "$repo/src" "$repo/Cargo.toml" "$repo/build.rs" -type f 2> /dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
fresh() { # TARGET-DIRECTORY
    if [ "$(cat "$1/contents" 2> /dev/null)" != "$contents" ]; then
        mkdir -p "$1/release/.fingerprint"
        find "$1/release/.fingerprint" -mindepth 1 -maxdepth 1 -name 'htrpc-*' -exec rm -r {} +
        echo "$contents" > "$1/contents"
    fi
}
if [ "${1:-}" = conform ]; then
    cargo build -q --example traces --release --offline --manifest-path "$here/harness/Cargo.toml" || exit 2
    cargo build -q --release --offline --manifest-path "$here/conform/Cargo.toml" --target-dir "$here/target/conform" || exit 2
    "$here/target/release/examples/traces" "$here/target/traces.jsonl" || exit 2
    exec "$here/target/conform/release/conform" "$here/target/traces.jsonl"
fi
if [ "${1:-}" = C21 ] || [ "${1:-}" = build ]; then
    fresh "$here/target/threads"
    if ! cargo build --release --offline --manifest-path "$here/threads/Cargo.toml" --target-dir "$here/target/threads" > "$here/target/threads.log" 2>&1; then
        grep -E '^error' -A12 "$here/target/threads.log" | head -60
        echo "check.sh: the harness of threads does not build against /repo"
        exit 2
    fi
    if [ "$1" = C21 ]; then
        tier=${2:-quick}
        shift $(($# < 2 ? $# : 2))
        exec "$here/target/threads/release/C21" --tier "$tier" "$@"
    fi
fi
fresh "$here/target"
bins=--bins
[ "${1:-}" = build ] || bins="--bin ${1:?usage: check.sh PROPERTY quick|thorough}"
if ! cargo build $bins --release --offline --manifest-path "$here/harness/Cargo.toml" > "$here/target/build.log" 2>&1; then
    grep -E '^error' -A12 "$here/target/build.log" | head -60
    echo "check.sh: the harness does not build against /repo"
    exit 2
fi
[ "${1:-}" = build ] && exit 0
prop=$1
tier=${2:-quick}
shift $(($# < 2 ? $# : 2))
exec "$here/target/release/$prop" "$prop" --tier "$tier" "$@"
