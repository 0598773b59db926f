#!/bin/bash
# check.sh <property id>: analyse /repo's current source and decide one property.
# "check.sh --dump FILE [REPO]" only writes the program dump.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
B="$HERE/build"
mkdir -p "$B" "$HERE/evidence"

build_driver() {
  (cd "$HERE/driver" && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --offline --locked -q) || { echo "cannot build the MIR driver" >&2; return 1; }
}

dump() { # $1 = output file
  local out="$1"
  local T="$B/target"
  # cargo's freshness cache would skip the wrapper: forget the analysed crate
  if [ -d "$T/debug/.fingerprint" ]; then
    find "$T/debug/.fingerprint" -maxdepth 1 -name 'phoenix-v1-*' -exec rm -rf {} +
  fi
  if [ -d "$T/debug/build/phoenix-v1" ]; then rm -rf "$T/debug/build/phoenix-v1"; fi
  rm -f "$out.tmp"
  MIRDUMP_OUT="$out.tmp" LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib" \
  RUSTC_WRAPPER="$B/driver/debug/mirdump" CARGO_TARGET_DIR="$T" CARGO_NET_OFFLINE=true \
  CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 \
    cargo +nightly check --offline --locked --lib -q --manifest-path "$REPO/Cargo.toml" >"$B/dump.log" 2>&1
  local rc=$?
  if [ $rc -ne 0 ] || [ ! -s "$out.tmp" ]; then
    echo "cannot compile $REPO for analysis:" >&2; tail -20 "$B/dump.log" >&2
    return 1
  fi
  mv "$out.tmp" "$out"
}

hash_src() {
  (cd "$REPO" && find . \( -name target -o -name .git -o -name tests \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.json' \) -print0 | sort -z | xargs -0 sha256sum
   cd "$HERE/driver" && sha256sum Cargo.toml src/*.rs) | sha256sum | cut -c1-24
}

(
  flock 9
  build_driver || exit 1
  if [ "${1:-}" = "--dump" ]; then REPO="${3:-$REPO}"; dump "$2"; exit $?; fi
  H="$(hash_src)"
  if [ ! -s "$B/mir-$H.json" ]; then
    find "$B" -maxdepth 1 -name 'mir-*.json' -delete
    dump "$B/mir-$H.json" || exit 1
  fi
  echo "$B/mir-$H.json" > "$B/current"
) 9>"$B/lock" || exit 2
[ "${1:-}" = "--dump" ] && exit 0
[ "${1:-}" = "--setup" ] && exit 0
M="$(cat "$B/current")"
VERIF_REPO="$REPO" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3 "$HERE/sa/main.py" "$1" "$M"
