#!/bin/bash
# run.sh check PROP [quick|thorough] | replay FILE | selftest | build
# Builds the shim, the simulator and accountmerge (from /repo's working tree)
# and runs the simulator.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${AM_REPO:-/repo}"
B="$V/.build"
mkdir -p "$B"
export AM_VERIF="$V"

build() {
  exec 9>"$B/lock"
  flock 9
  if [ ! -e "$B/shim.so" ] || [ "$V/shim/shim.c" -nt "$B/shim.so" ]; then
    gcc -O2 -shared -fPIC -fno-stack-protector -fno-builtin-malloc -o "$B/shim.so.new" "$V/shim/shim.c" -ldl && mv "$B/shim.so.new" "$B/shim.so" || return 2
  fi
  export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
  if ! (cd "$V/sim" && cargo build --release --offline --locked --target-dir "$B/sim" >"$B/sim.log" 2>&1); then
    cat "$B/sim.log" >&2
    return 2
  fi
  if [ ! -d "$B/am" ]; then
    if [ -d "$REPO/target/debug" ]; then cp -a "$REPO/target" "$B/am.new"; else mkdir -p "$B/am.new"; fi
    mv "$B/am.new" "$B/am"
  fi
  # Time stamps prove nothing about the content of the working tree.
  local h
  h=$(cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$B/am.hash" 2>/dev/null)" != "$h" ] || [ ! -x "$B/am/debug/accountmerge" ]; then
    rm -f "$B/am.hash"
    find "$B/am/debug/.fingerprint" -maxdepth 1 -name 'accountmerge-*' -exec rm -rf {} + 2>/dev/null
    if ! (cd "$REPO" && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --offline --locked --bin accountmerge --target-dir "$B/am" >"$B/am.log" 2>&1); then
      cat "$B/am.log" >&2
      return 2
    fi
    echo "$h" >"$B/am.hash"
  fi
  exec 9>&-
}

build || { echo "build failed" >&2; exit 2; }
case "${1:-}" in
  build) ;;
  check)
    [ -n "${3:-}" ] && export VERIF_TIER="$3"
    exec "$B/sim/release/amsim" check "$2"
    ;;
  *) exec "$B/sim/release/amsim" "$@" ;;
esac
