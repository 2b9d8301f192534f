#!/bin/bash
# check.sh <property> <quick|thorough>   |   check.sh build   |   check.sh replay FILE   |   check.sh pv ARGS...
# Builds the harness, builds pomelo from /repo's working tree, and runs one check.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
R=${PV_REPO:-/repo}
T=${PV_TARGET:-$V/target}
mkdir -p "$T" || exit 2
exec 9>"$T/lock"
flock 9
fail() { echo "check.sh: $1" >&2; exit 2; }

CARGO_TARGET_DIR=$T/harness cargo build --offline --quiet --manifest-path harness/Cargo.toml >"$T/harness.log" 2>&1 9>&- \
  || { cat "$T/harness.log" >&2; fail "harness does not build"; }

# pomelo, from the working tree: rebuilt whenever the content of its sources changed
H=$(cd "$R" && find src pomelo-impl Cargo.toml -type f \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
P=$T/probe
mkdir -p "$P"
if [ ! -f "$P/ok-$H" ]; then
  rm -f "$P"/ok-*
  rm -rf "$P/src"
  mkdir -p "$P/src"
  cp probe/src/lib.rs "$P/src/"
  cp probe/Cargo.lock "$P/Cargo.lock"
  sed "s#@REPO@#$R#" probe/Cargo.toml.in > "$P/Cargo.toml"
  [ -d "$P/target" ] && CARGO_TARGET_DIR=$P/target cargo clean --offline --quiet --manifest-path "$P/Cargo.toml" -p pomelo -p pomelo-impl 9>&-
  CARGO_TARGET_DIR=$P/target cargo build --offline --manifest-path "$P/Cargo.toml" --message-format=json >"$P/build.json" 2>"$P/build.log" 9>&- \
    || { cat "$P/build.log" >&2; fail "pomelo does not build"; }
  touch "$P/ok-$H"
fi
RH=$(cat rt/rt.rs rt/vattr.rs | sha256sum | cut -c1-16)
if [ ! -f "$T/rt-$RH/librt.rlib" ] || [ ! -f "$T/rt-$RH/libvattr.so" ]; then
  rm -rf "$T"/rt-*
  mkdir -p "$T/rt-$RH"
  rustc --edition 2021 --crate-name rt --crate-type rlib -C opt-level=1 -C debuginfo=0 --cap-lints allow rt/rt.rs -o "$T/rt-$RH/librt.rlib" 9>&- || fail "rt does not build"
  rustc --edition 2021 --crate-name vattr --crate-type proc-macro -C opt-level=1 -C debuginfo=0 --cap-lints allow rt/vattr.rs --out-dir "$T/rt-$RH" 9>&- || fail "vattr does not build"
fi
flock -u 9
exec 9>&-
export PV_ROOT=$V PV_WORK=$T/work PV_BUILD_JSON=$P/build.json PV_RT=$T/rt-$RH/librt.rlib PV_VA=$T/rt-$RH/libvattr.so
case "$1" in
  build) exit 0 ;;
  replay) exec "$T/harness/debug/pv" replay "$2" ;;
  pv) shift; exec "$T/harness/debug/pv" "$@" ;;
  *) exec "$T/harness/debug/pv" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
