#!/bin/bash
# usage: check.sh <PROPERTY-ID> | --setup
# Rebuilds the harness and termimad from /repo's working tree, then runs the check
# (tier and seed in VERIF_TIER and VERIF_SEED).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET NO_COLOR
cd "$here/harness" || exit 2
mkdir -p target
# cargo looks at the dates of the files: a change which keeps an old date
# (a checkout, a copy) must be seen too
hash=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum)
if [ "$(cat target/repo.hash 2>/dev/null)" != "$hash" ]; then
  cargo clean --offline -q -p termimad 2>/dev/null
fi
if ! cargo build --offline -q 2> target/build.log; then
  cat target/build.log >&2
  echo "ERROR: the harness doesn't build with /repo's working tree" >&2
  exit 2
fi
echo "$hash" > target/repo.hash
if [ "$1" = "C33" ] || [ "$1" = "--setup" ]; then
  # termimad without its optional feature. If it doesn't build, the check says it
  if ! (cd ../plain && cargo build --offline -q) 2> target/build-plain.log; then
    cat target/build-plain.log >&2
    rm -f "$here/harness/target/debug/vp-plain"
  fi
fi
[ "$1" = "--setup" ] && exit 0
VP_DIR="$here" exec ./target/debug/vp run "$1"
