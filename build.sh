#!/bin/bash
# Builds the simulator against /repo's working tree: build.sh default|pre-rfc8301
# Prints the path of the binary on success.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
V=${1:-default}
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
T=$ROOT/.build/$V
mkdir -p "$T"
F=()
[ "$V" = pre-rfc8301 ] && F=(--features pre-rfc8301)
exec 9>"$T/lock"
flock 9
# What the binary depends on, by content: a change that keeps old file times is seen too.
want=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name '*.toml' \) -type f -print0 | sort -z | xargs -0 sha256sum
         cd "$ROOT/sim" && find . -type f -print0 | sort -z | xargs -0 sha256sum
         rustc --version) | sha256sum)
BIN=$T/sim/viasim
if [ ! -x "$BIN" ] || [ "$(cat "$T/stamp" 2>/dev/null)" != "$want" ]; then
  rm -f "$T/stamp"
  rm -rf "$T"/sim/.fingerprint/viadkim-* "$T"/sim/.fingerprint/viasim-*
  if ! (cd "$ROOT/sim" && CARGO_TARGET_DIR=$T cargo build --profile sim --offline --locked "${F[@]}") >"$T/build.log" 2>&1; then
    grep -E '^(error|warning: unused)' -A8 "$T/build.log" | head -60 >&2
    tail -5 "$T/build.log" >&2
    echo "build.sh: cannot build the simulator ($V) against /repo" >&2
    exit 2
  fi
  printf '%s\n' "$want" >"$T/stamp"
fi
echo "$BIN"
