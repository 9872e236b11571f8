#!/bin/bash
# ./check.sh PROPERTY [quick|thorough]   decide one property against /repo's working tree
# ./check.sh replay FILE                 run a replay file again
# ./check.sh determinism COUNT [PROP..]  run seeds twice and compare the event logs
# ./check.sh build                       build only
set -u
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg onion_sim -Awarnings"
export CARGO_TARGET_DIR="$V/target"
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
REPO=/repo
mkdir -p "$V/target" "$V/evidence" "$V/replays"

build() {
  exec 9>"$V/target/.lock"
  flock 9
  # rebuild whenever the text of the sources differs, whatever their time stamps say
  local h
  h=$( (cd "$REPO" && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; sha256sum "$V/tools/stepped-rustc.sh"; cd "$V/sim" && find . -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$V/target/.stamp" 2>/dev/null)" != "$h" ] || [ ! -x "$V/target/release/onion-sim" ] || [ ! -x "$V/target/checked/onion-sim" ] || [ ! -x "$V/target/stepped/onion-sim" ]; then
    rm -f "$V/target/.stamp"
    rm -rf "$V"/target/release/.fingerprint/onion* "$V"/target/checked/.fingerprint/onion* "$V"/target/stepped/.fingerprint/onion*
    rm -f "$V"/target/built-*
    for p in release checked stepped; do
      (cd "$V/sim" && if [ $p = stepped ]; then export RUSTC_WRAPPER="$V/tools/stepped-rustc.sh" RUSTFLAGS="$RUSTFLAGS --cfg onion_stepped"; fi
        timeout 800 cargo build --offline --locked --profile $p >"$V/target/build-$p.log" 2>&1 && touch "$V/target/built-$p") 9>&- &
    done
    wait
    for p in release checked stepped; do
      [ -e "$V/target/built-$p" ] || {
        echo "build of the simulator against $REPO failed:" >&2
        grep -E -A6 '^error' "$V/target/build-$p.log" | head -40 >&2
        exit 2
      }
    done
    echo "$h" >"$V/target/.stamp"
  fi
  flock -u 9
}

build
export SIM_RELEASE="$V/target/release/onion-sim" SIM_CHECKED="$V/target/checked/onion-sim" SIM_STEPPED="$V/target/stepped/onion-sim"
export SIM_EVIDENCE="$V/evidence" SIM_REPLAYS="$V/replays" SIM_KNOWN="$V/known_findings.txt"
case "${1:-}" in
  build) exit 0 ;;
  replay|determinism|gen) exec "$SIM_RELEASE" "$@" ;;
  C*) exec "$SIM_RELEASE" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
  *) sed -n 2,5p "$0" >&2; exit 2 ;;
esac
