#!/bin/bash
# check.sh build            build everything the checks need from /repo's working tree
# check.sh <ID>             run one check (VERIF_TIER, VERIF_SEED)
# check.sh replay <plan>    replay one recorded violation
# check.sh selftest [IDs]   determinism of the simulator itself
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
HERE=$(cd "$(dirname "$0")" && pwd) || exit 2
export VERIF_ROOT=$HERE
REPO=${VERIF_REPO:-/repo}
cd "$HERE" || exit 2

build_sim() {
    CARGO_TARGET_DIR=$HERE/target cargo build --release --offline --quiet --manifest-path sim/Cargo.toml 2> build.log \
        || { cat build.log >&2; echo "check.sh: the simulator does not build against $REPO" >&2; exit 2; }
}
build_tool() {
    CARGO_TARGET_DIR=$HERE/target/bin2str cargo build --offline --quiet --manifest-path "$REPO/utility/bin2str/Cargo.toml" 2> build.log \
        || { cat build.log >&2; echo "check.sh: bin2str does not build" >&2; exit 2; }
    mkdir -p target
    if [ ! -e target/faultio.so ] || [ shim/faultio.c -nt target/faultio.so ]; then
        gcc -O2 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fPIC -shared -o target/faultio.so shim/faultio.c -ldl || { echo "check.sh: shim does not build" >&2; exit 2; }
    fi
}

case "$1" in
    build) build_sim; build_tool ;;
    C07) build_sim; build_tool; exec target/release/baesim check "$1" ;;
    C[0-9][0-9]) build_sim; exec target/release/baesim check "$1" ;;
    replay|selftest|show|list) build_sim; build_tool; exec target/release/baesim "$@" ;;
    *) sed -n 2,5p "$0"; exit 2 ;;
esac
