#!/bin/bash
# Build the simulator from /repo's working tree and run it:
#   check.sh build | check.sh check C05 [quick|thorough] | check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
# the toolchain of the repository, if there is a choice
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
# what the sources are, and not how old they are, decides what has to be built
sources=$( (cat sim/rustc.sh; cd ../repo && find src bin Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
export RUSTFLAGS="--cfg tiny_spice_sim --cfg tiny_spice_sources=\"$sources\" --check-cfg=cfg(tiny_spice_sim,tiny_spice_sources,values(any()))"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_RUSTC_WRAPPER
export RUSTC_WRAPPER=$PWD/sim/rustc.sh

# usual: the code under test calls the simulator at every branch; fine: at every access to memory, too
build() {
    export CARGO_TARGET_DIR=$PWD/sim/target/$1
    mkdir -p "$CARGO_TARGET_DIR"
    export TSIM_FINE=0
    [ "$1" = fine ] && TSIM_FINE=1
    if ! (cd sim && flock "$CARGO_TARGET_DIR" cargo build --offline --release --locked) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
        tail -40 "$CARGO_TARGET_DIR/build.log"
        echo "the simulator can't be built from /repo's working tree"
        exit 2
    fi
}

which=usual
[ "$1" = check ] && [ "$2" = C09 ] && which=fine
[ "$1" = replay ] && grep -q '"property": "C09"' "$2" && which=fine
build $which
if [ "$1" = build ]; then
    build fine
    exit 0
fi
exec sim/target/$which/release/tsim "$*"
