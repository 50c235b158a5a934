#!/bin/bash
# bash run.sh check ID TIER | replay FILE | list | setup     (see DESIGN.md)
# Rebuilds the harness against /repo's working tree, then runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="${VERIF_ROOT:-$here}"
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg findex_verif"
# build DIR ARGS...: the properties of the layers that are not exported are
# built apart, so that a change of their signatures concerns them only.
build() {
    export CARGO_TARGET_DIR="$1"
    shift
    log="$(mktemp)"
    if ! cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" "$@" >"$log" 2>&1; then
        tail -40 "$log" >&2
        rm -f "$log"
        echo "ERROR: the harness does not build against /repo" >&2
        return 4
    fi
    rm -f "$log"
}
layers() { build "$here/harness/target/layers" --features layers; }
plain() { build "$here/harness/target"; }
case "$1:$2" in
setup:*)
    plain && layers
    exit
    ;;
check:C31 | check:C32) layers ;;
list:*) layers ;;
replay:*) if grep -Eq '"property": *"C3[12]"' "$2"; then layers; else plain; fi ;;
*) plain ;;
esac || exit
exec "$CARGO_TARGET_DIR/release/findex-pbt" "$@"
