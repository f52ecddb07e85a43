#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds from /repo's working tree, explores, reports.
# check.sh setup: builds only.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$here/evidence" "$here/out"

fail() {
    cat "$1"
    echo "no answer: the build failed"
    exit 2
}

# fresh <packages>: cargo goes by modification times, so what is built is tied to the contents here
fresh() {
    now=$(cd /repo && find Cargo.toml src wop/Cargo.toml wop/src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)" != "$now" ]; then
        cargo clean --offline --release $1 >/dev/null 2>&1
        echo "$now" >"$CARGO_TARGET_DIR/.repo-hash"
    fi
}

# the parser generator: symx
build_lrp() {
    cd "$here/symx" || exit 2
    export CARGO_TARGET_DIR="$here/symx/target"
    mkdir -p target
    exec 9>target/.check.lock
    flock 9
    fresh "-p lrp"
    cargo build --offline --release >target/build.log 2>&1 || fail target/build.log
    flock -u 9
    exec 9>&-
}

# compiled [probe]: the generated modules, less those that do not compile, which target/bad lists
compiled() {
    for _ in 1 2 3 4 5 6; do
        target/release/wopmk . target/bad "$@" >target/mk.log 2>&1 || fail target/mk.log
        timeout -k 5 300 cargo build --offline --release -p wopgen -p wopself --keep-going --message-format short >target/gen.log 2>&1 && return 0
        sed -nE 's|^(.*/)?gen/src/(t[0-9]+)\.rs:[0-9:]+ error(.*)$|\2 error\3|p' target/gen.log >target/new
        sed -nE 's|^(.*/)?itself/src/lib\.rs:[0-9:]+ error(.*)$|itself error\2|p' target/gen.log >>target/new
        [ -s target/new ] || fail target/gen.log
        cat target/new >>target/bad
    done
    return 1
}

# the grammar notation and its generated code: wopx
build_wop() {
    cd "$here/wopx" || exit 2
    export CARGO_TARGET_DIR="$here/wopx/target"
    mkdir -p target gen/src itself/src
    exec 9>target/.check.lock
    flock 9
    for d in gen itself; do
        [ -f $d/src/lib.rs ] || { : >$d/src/lib.rs && rm -f target/gen.hash; }
    done
    fresh "-p lrp -p wop"
    cargo build --offline --release -p wopmk >target/build.log 2>&1 || fail target/build.log
    # the builder orders rules differently in each run: generate once
    made=$(cat target/release/wopmk /repo/wop/src/wop.grammar | sha256sum)
    if [ "$(cat target/gen.hash 2>/dev/null)" != "$made" ]; then
        rm -f target/gen.hash
        : >target/bad
        # one module in twenty first: the compiler takes very long to reject them all
        compiled probe
        if ! grep -q 'made: Ok' gen/src/lib.rs && grep -q '^t' target/bad; then
            why=$(grep -m1 '^t' target/bad)
            seq 0 4999 | sed "s~.*~t& as ${why//[~&\\\\]/ }~" >target/all
            cat target/all >>target/bad
        fi
        compiled && echo "$made" >target/gen.hash
    fi
    cargo build --offline --release -p wopx >target/build.log 2>&1 || fail target/build.log
    # the lexer that the derive macro writes
    if [ "$1" = C19 ] || [ "$1" = setup ]; then
        if [ ! -s target/expanded.rs ] || [ "$(cat target/expanded.hash 2>/dev/null)" != "$now" ]; then
            rm -f target/expanded.rs
            CARGO_TARGET_DIR=target/exp cargo clean --offline -p wop >/dev/null 2>&1
            RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=target/exp cargo rustc --offline -p wop --lib -- -Zunpretty=expanded \
                >target/expanded.new 2>target/exp.log && mv target/expanded.new target/expanded.rs && echo "$now" >target/expanded.hash
        fi
    fi
    flock -u 9
    exec 9>&-
}

case "$1" in
setup)
    build_lrp
    build_wop setup
    ;;
C19 | C20 | C21 | C22 | C23)
    build_wop "$1"
    exec target/release/wopx check "$1" "$2" "$here/evidence/$1.json" "$here/out"
    ;;
*)
    build_lrp
    exec target/release/symx check "$1" "$2" "$here/evidence/$1.json" "$here/out"
    ;;
esac
