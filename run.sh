#!/bin/bash
# run.sh <property> [quick|thorough]: build the checker against /repo's working tree and run one check.
# run.sh setup: build only.
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD"
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_TARGET_DIR="$PWD/mc/target" CARGO_NET_OFFLINE=true
mkdir -p evidence mc/target
# one build at a time; cargo's own lock would do, this also keeps its messages together
exec 9>mc/target/.run.lock
flock 9
if ! (cd mc && cargo build --release --offline) >mc/target/build.log 2>&1; then
  cat mc/target/build.log >&2
  exit 3
fi
flock -u 9
[ "$1" = setup ] && exit 0
[ -n "$2" ] && export VERIF_TIER="$2"
exec mc/target/release/mc check "$1"
