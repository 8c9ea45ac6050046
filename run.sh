#!/bin/bash
# run.sh ID        build what the check of property ID needs from /repo's working tree and run it
# run.sh replay F  re-run one saved case
# run.sh build     build everything
# VERIF_SEED and VERIF_TIER (quick | thorough) choose the seed and the depth.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
T=$V/target
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$T" evidence || exit 2

# Cargo compares modification times; a tree may be replaced by one with older files. The content decides here.
SUM=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1) || exit 2

# crate, target directory, toolchain, RUSTFLAGS, cargo arguments
build() {
  local crate=$1 dir=$T/$2 tc=$3 flags=$4; shift 4
  mkdir -p "$dir" || return 2
  (
    flock 9
    export RUSTFLAGS="$flags"
    if [ "$(cat "$dir/repo.sum" 2>/dev/null)" != "$SUM" ]; then
      rm -f "$dir/repo.sum"
      if [ -d "$dir/release" ] || [ -d "$dir/wrapping" ] || [ -d "$dir/x86_64-unknown-linux-gnu" ]; then
        (cd "$V/$crate" && cargo $tc clean --offline --target-dir "$dir" -p sci-rs "${CLEAN[@]}") >/dev/null 2>&1
      fi
    fi
    if ! (cd "$V/$crate" && cargo $tc build --offline --target-dir "$dir" "$@") >"$dir/build.log" 2>&1; then
      cat "$dir/build.log" >&2
      exit 2
    fi
    echo "$SUM" >"$dir/repo.sum"
  ) 9>"$dir/.lock"
}
harness() { CLEAN=(--release); build harness harness "" "-C target-cpu=x86-64" --release; }
# the same checks against the default configuration of the library
nostd() { CLEAN=(--release); build harness nostd "" "-C target-cpu=x86-64" --release --no-default-features; }
probe() { CLEAN=(--release); build probe probe "" "-C target-cpu=x86-64" --release; }
asan() {
  CLEAN=(--profile wrapping --target x86_64-unknown-linux-gnu)
  build probe asan +nightly "-C target-cpu=x86-64 -Zsanitizer=address" --profile wrapping --features full --target x86_64-unknown-linux-gnu
}
need() {
  harness || exit 2
  case $1 in
    C23) probe || exit 2; asan || exit 2 ;;
    C24) probe || exit 2; nostd || exit 2 ;;
  esac
}

export VERIF_ROOT=$V
case ${1:-} in
  build) harness && nostd && probe && asan || exit 2 ;;
  replay)
    need "$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)"
    exec "$T/harness/release/check" replay "$2" ;;
  C[0-9]*)
    need "$1"
    exec "$T/harness/release/check" run "$1" ;;
  *) echo "usage: run.sh ID | replay FILE | build" >&2; exit 2 ;;
esac
