#!/bin/bash
# check.sh <ID> quick|thorough [--replay FILE]
# Builds the harness against /repo's current working tree and runs one check.
# exit 0: held on everything explored, 1: violation, anything else: no verdict.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
ID=$1 TIER=${2:-${VERIF_TIER:-quick}}
[ -n "$ID" ] || { echo "usage: check.sh <ID> quick|thorough [--replay FILE]"; exit 2; }
shift 2
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=$PATH:/root/.cargo/bin CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUST_LOG CARGO_TARGET_DIR
T=$PWD/harness/target
build() {
    # Dependencies already compiled for /repo's own tests are taken over, the crate itself never is.
    if [ ! -d "$T/debug/.fingerprint" ] && [ -d /repo/target/debug/.fingerprint ]; then
        mkdir -p "$T/debug/deps" "$T/debug/.fingerprint"
        cp -a /repo/target/debug/build "$T/debug/" 2>/dev/null
        (cd /repo/target/debug/.fingerprint && find . -maxdepth 1 -mindepth 1 ! -name 's2protocol-*' ! -name 'integration_test-*' -exec cp -a -t "$T/debug/.fingerprint" {} +)
        (cd /repo/target/debug/deps && find . -maxdepth 1 -type f \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) ! -name '*s2protocol*' ! -name 'integration_test*' -exec cp -a -t "$T/debug/deps" {} +)
    fi
    # cargo does not track the embedded assets, and file times may lie: go by content.
    local new
    new=$(cd /repo && { find src assets Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum)
    if [ "$new" != "$(cat "$T/repo.sha256" 2>/dev/null)" ]; then
        rm -f "$T/repo.sha256"
        (cd harness && cargo clean --offline -p s2protocol >/dev/null 2>&1)
    fi
    (cd harness && cargo build --offline) >"$T/build.log" 2>&1 || { grep -A8 -E '^error' "$T/build.log" | head -60; return 1; }
    echo "$new" >"$T/repo.sha256"
}
# L01 compares with other configurations of the library. One that does not compile is its finding.
variants() {
    local name new flags
    new=$(cat "$T/repo.sha256")
    for name in bare off; do
        flags=--no-default-features
        [ $name = off ] && flags="$flags --features off"
        if [ "$new" != "$(cat "$T/$name.sha256" 2>/dev/null)" ]; then
            rm -f "$T/$name.sha256"
            (cd harness && cargo clean --offline -p s2protocol --target-dir "$T/$name" >/dev/null 2>&1)
        fi
        if (cd harness && cargo build --offline $flags --target-dir "$T/$name") >"$T/$name.log" 2>&1; then
            : >"$T/$name.err"
            echo "$new" >"$T/$name.sha256"
        else
            grep -A8 -E '^error' "$T/$name.log" >"$T/$name.err" || tail -5 "$T/$name.log" >"$T/$name.err"
            grep -q 'could not compile `s2protocol`' "$T/$name.log" || return 1
        fi
    done
}
mkdir -p "$T"
if [ "$ID" = build ]; then
    exec 9>"$T/lock"; flock 9; build && variants; exit
fi
( flock 9; build && { [ "$ID" != L01 ] || variants; } ) 9>"$T/lock" || { echo "ERROR (no verdict): build failed"; exit 2; }
HARNESS_SCRATCH=$(mktemp -d /tmp/s2h.XXXXXX) || exit 2
export HARNESS_SCRATCH
trap 'rm -rf "$HARNESS_SCRATCH"' EXIT
LIMIT=840; [ "$TIER" = thorough ] && LIMIT=5400
timeout $LIMIT "$T/debug/harness" "$ID" "$TIER" "${VERIF_SEED:-1}" "$@" 2>"$HARNESS_SCRATCH/stderr"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || tail -c 3000 "$HARNESS_SCRATCH/stderr"
[ $rc = 0 ] || [ $rc = 1 ] || { echo "ERROR (no verdict): harness ended with $rc"; rc=2; }
exit $rc
