#!/bin/bash
# run.sh <ID> [--replay FILE] [--thorough]: builds what the check needs from /repo's working tree, and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTC_WRAPPER
id="${1:?usage: run.sh ID [--replay FILE] [--thorough]}"
build() {
    local log
    log="$("$@" 2>&1)" && return 0
    printf '%s\n' "$log" >&2
    echo "run.sh: build failed" >&2
    exit 2
}
RUSTFLAGS="--cfg rezip_verif" build cargo build -q --release --offline --locked \
    --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target/harness"
[ "$id" = setup ] && exit 0
case "$id" in
C14|C15|C16|C21|C24|C25)
    RUSTFLAGS="" CARGO_PROFILE_DEV_OPT_LEVEL=2 build cargo build -q --offline --locked --manifest-path /repo/Cargo.toml -p rezippers \
        --target-dir "$here/target/repo"
    export REZIP_BIN="$here/target/repo/debug/rezippers"
    ;;
esac
thorough=0
[ "${VERIF_TIER:-}" = thorough ] && thorough=1
for a in "$@"; do
    case "$a" in --thorough) thorough=1 ;; --replay) thorough=-9 ;; esac
done
case "$id" in C14|C15|C16|C21|C22|C24|C25) thorough=0 ;; esac
[ $thorough != 1 ] && exec "$here/target/harness/release/rezip-verif" "$@"
# thorough: random search, then coverage-guided search of the same cases
"$here/target/harness/release/rezip-verif" "$@" || exit $?
exec python3 "$here/fuzz/stage.py" "$id"
