#!/bin/bash
# run.sh <property> [quick|thorough]   decide one property on /repo's working tree
# run.sh replay <file>                 run one recorded case again
# run.sh build                         only build the harness
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
export RUSTUP_TOOLCHAIN=1.88-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$root/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$root/target" "$root/evidence" "$root/scratch"
build() {
  (cd "$root/harness" && cargo build --release --offline --locked --quiet) >"$root/target/build.log" 2>&1 || {
    tail -n 30 "$root/target/build.log" >&2
    echo "the harness does not build against /repo" >&2
    exit 2
  }
}
# the same harness with ThreadSanitizer, where the nightly toolchain can build it
tsan() {
  local t=$root/target/tsan
  mkdir -p "$t"
  if (cd "$root/harness" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR=$t \
      timeout 500 cargo build --release --offline --locked --quiet -Zbuild-std --target x86_64-unknown-linux-gnu) >"$t/build.log" 2>&1; then
    export MON_TSAN=$t/x86_64-unknown-linux-gnu/release/mon
  else
    echo "no race detector: $(tail -n 1 "$t/build.log")" >&2
  fi
}
case "${1:-}" in
build) build; tsan ;;
replay) build; grep -q '"C19"' "$2" && tsan; exec "$root/target/release/mon" replay "$2" ;;
C[0-9]*)
  build
  [ "$1" = C19 ] && tsan
  exec "$root/target/release/mon" check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}"
  ;;
*) echo "usage: run.sh <property> [quick|thorough] | replay <file> | build" >&2; exit 2 ;;
esac
