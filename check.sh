#!/bin/bash
# usage: check.sh setup | check.sh ID | check.sh replay FILE
# Builds the harness against /repo's working tree and runs one property.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export HOME=/root CARGO_HOME=/root/.cargo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
H=$here/harness
T=x86_64-unknown-linux-gnu
has() { for f in "$@"; do grep -qw "$f" /proc/cpuinfo || return 1; done; }

build() { # plain|avx|asan
    local log=$here/.target/build-$1.log
    mkdir -p "$here/.target"
    case $1 in
    plain) CARGO_TARGET_DIR=$here/.target/plain cargo build --release --offline --locked --manifest-path "$H/Cargo.toml" >"$log" 2>&1 ;;
    avx) RUSTFLAGS="-C target-feature=+avx" CARGO_TARGET_DIR=$here/.target/avx cargo build --release --offline --locked --target $T --manifest-path "$H/Cargo.toml" >"$log" 2>&1 ;;
    asan) RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-C target-feature=+avx -Zsanitizer=address" CARGO_TARGET_DIR=$here/.target/asan cargo build --release --offline --locked --target $T --manifest-path "$H/Cargo.toml" >"$log" 2>&1 ;;
    esac || { echo "build of $1 failed:" >&2; tail -40 "$log" >&2; exit 2; }
}
path() {
    case $1 in
    plain) echo "$here/.target/plain/release/csverif" ;;
    *) echo "$here/.target/$1/$T/release/csverif" ;;
    esac
}

builds_for() {
    case $1 in
    C17) echo plain avx ;;
    C18) echo avx ;;
    C22) echo asan ;;
    *) echo plain ;;
    esac
}

case $1 in
setup)
    build plain
    if has avx avx2 fma; then build avx; build asan; fi
    exit 0
    ;;
replay)
    build plain
    args=(--worker "plain:$(path plain)")
    if has avx avx2 fma; then
        build avx; build asan
        args+=(--worker "avx:$(path avx)" --worker "asan:$(path asan)")
    fi
    exec "$(path plain)" replay "$2" "${args[@]}"
    ;;
C[0-9][0-9])
    build plain
    args=()
    for b in $(builds_for "$1"); do
        if [ "$b" != plain ]; then
            has avx avx2 fma || continue
            build "$b"
        fi
        args+=(--worker "$b:$(path "$b")")
    done
    if [ ${#args[@]} -eq 0 ]; then
        args=(--worker "plain:$(path plain)" --note "this CPU has no AVX2/FMA: the AVX builds were not run")
    fi
    "$(path plain)" run "$1" --root "$here" "${args[@]}"
    exit $?
    ;;
*)
    echo "usage: check.sh setup | ID | replay FILE" >&2
    exit 2
    ;;
esac
