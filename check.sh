#!/bin/bash
# check.sh <property> [quick|thorough]     run one check against /repo's working tree
# check.sh --replay <file>                 re-execute a replay file
# check.sh --build                         only build
cd "$(dirname "$0")" || exit 2
here=$PWD
export CARGO_NET_OFFLINE=true
# build <target dir>
build() {
    log=$(CARGO_TARGET_DIR=$1 cargo build --release --offline --manifest-path sim/Cargo.toml 2>&1)
    if [ $? -ne 0 ]; then
        echo "$log" >&2
        echo "check.sh: the simulator does not build against /repo" >&2
        exit 2
    fi
}
plain() {
    build "$here/sim/target"
    bin=$here/sim/target/release/mqsim
}
# the library instrumented with scheduling points, for C02
points() {
    export RUSTC_WRAPPER=$here/sim/points.sh
    build "$here/sim/target/points"
    unset RUSTC_WRAPPER
    bin=$here/sim/target/points/release/mqsim
}
case "$1" in
    --build) plain; points; exit 0 ;;
    --replay)
        if grep -q '^ "property": "C02"' "$2"; then points; else plain; fi
        exec "$bin" replay "$(realpath "$2")" "$here" ;;
    C02) points ;;
    *) plain ;;
esac
exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" "$here"
