#!/bin/sh
# ./run.sh <property id>     build from /repo's working tree and run the check
# ./run.sh replay <file>     run the case of a replay file
# ./run.sh build             build only
# VERIF_TIER=quick|thorough, VERIF_SEED=<n>
cd "$(dirname "$0")" || exit 2
export WV_ROOT="$PWD" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
mkdir -p work evidence
if ! cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir target >work/build.log 2>&1; then
    cat work/build.log >&2
    echo "the harness does not build" >&2
    exit 2
fi
plain() {
    cargo build --profile plain --offline --manifest-path harness/Cargo.toml --target-dir target >work/build-plain.log 2>&1 || { cat work/build-plain.log >&2; exit 2; }
}
# C35: programs that decode on other machines: of 32 bits (there is a C library, but no linker's files), and big-endian
machines() {
    m="$PWD/target/machine"
    mkdir -p "$m/lib" || return 1
    for l in c m dl rt pthread util gcc_s; do
        ln -sf /usr/lib32/lib$l.so.[0-9]* "$m/lib/lib$l.so" || return 1
    done
    set -- --release --offline --manifest-path machine/Cargo.toml --target-dir "$m"
    cargo +nightly build "$@" || return 1
    CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUSTFLAGS="-Crelocation-model=static -Clinker=ld -Clinker-flavor=ld -Clink-args=-melf_i386 -Clink-args=-L$m/lib -Clink-args=--dynamic-linker=/lib/ld-linux.so.2" \
        cargo +nightly build "$@" -Zbuild-std=std,panic_unwind --target i686-unknown-linux-gnu || return 1
    cargo +nightly miri run "$@" --target s390x-unknown-linux-gnu </dev/null
}
machines_or_not() {
    export XDG_CACHE_HOME="$PWD/target/machine/cache" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-data-race-detector"
    machines >work/build-machines.log 2>&1
}
case "$1" in
build)
    plain
    machines_or_not || { cat work/build-machines.log >&2; echo "C35 will not run" >&2; }
    cargo build --offline --manifest-path /repo/Cargo.toml -p wadec-cli --target-dir target/cli >work/build-cli.log 2>&1 || { cat work/build-cli.log >&2; exit 2; }
    exit 0 ;;
C22)
    cargo build --offline --manifest-path /repo/Cargo.toml -p wadec-cli --target-dir target/cli >work/build-cli.log 2>&1 || { cat work/build-cli.log >&2; exit 2; }
    exec target/release/wv check C22 ;;
C34)
    plain
    exec target/release/wv check C34 ;;
C35)
    machines_or_not || { cat work/build-machines.log >&2; exit 2; }
    exec target/release/wv check C35 ;;
replay)
    plain
    case "$2" in *C35*) machines_or_not || { cat work/build-machines.log >&2; exit 2; } ;; esac
    exec target/release/wv replay "$2" ;;
*) exec target/release/wv check "$1" ;;
esac
