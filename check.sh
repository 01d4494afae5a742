#!/bin/bash
# usage: check.sh ID [quick|thorough] [--replay FILE]
# Rebuilds the check of one property against /repo's working tree and runs it.
# Exit 0: held on everything explored; 1: VIOLATION line printed; other: error.
ID=$1; shift
case $1 in quick|thorough) export VERIF_TIER=$1; shift;; esac
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${PBT_TARGET:-$HERE/target}
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
cd "$HERE/harness" || exit 2
run() { # profile, arguments...
    local profile=$1 dir=$1; shift
    # never trust file times: the crate under test is always compiled anew
    cargo clean --offline --profile "$profile" -p magnesia >/dev/null 2>&1
    if ! cargo build --offline --profile "$profile" --bin "$bin" >"$CARGO_TARGET_DIR/$bin.log" 2>&1; then
        grep -E '^error|^ +-->' "$CARGO_TARGET_DIR/$bin.log" | head -20 >&2
        echo "check.sh: the harness for $ID does not build" >&2
        return 2
    fi
    (ulimit -v 20000000; exec "$CARGO_TARGET_DIR/$dir/$bin" "$@")
    local rc=$?
    [ $rc -le 1 ] || rc=3
    return $rc
}
mkdir -p "$CARGO_TARGET_DIR"
case $ID in
C24 | C35 | C38)
    # Debug assertions are neither work of the crate nor memory it needs.
    run wrap "$@" || exit $?
    exit 0
    ;;
esac
run release "$@" || exit $?
# The evidence is that of the first build.
export VERIF_EVIDENCE=$CARGO_TARGET_DIR/other-evidence
case $ID in
C21 | C22 | C28)
    # Panics that only come from debug assertions or from the checks of integer
    # arithmetic do not count: once more without them, as in an ordinary
    # release build.
    run wrap "$@" || exit $?
    ;;
esac
if [ "$VERIF_TIER" = thorough ] && [ $# -eq 0 ]; then
    # a build with debug assertions as well, on the cases of the quick tier
    export VERIF_SCALE=0.04
    run dbg || exit $?
fi
exit 0
