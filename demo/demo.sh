#!/bin/bash
# compiles demo.rs (beside this file) against the library built in /repo and runs it
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
export RUSTUP_TOOLCHAIN=1.75.0-x86_64-unknown-linux-gnu
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
L="$R/target/debug"
[ -f "$L/libphoenix.rlib" ] || { echo "no libphoenix.rlib in $L"; exit 3; }
borsh=$(ls "$L"/deps/libborsh-*.rlib | head -1)
for sp in $(ls -t "$L"/deps/libsolana_program-*.rlib); do
  for tk in "$L"/deps/libspl_token-*.rlib; do
    if rustc --edition 2021 -Awarnings --crate-name demo -L dependency="$L/deps" --extern phoenix="$L/libphoenix.rlib" \
      --extern solana_program="$sp" --extern spl_token="$tk" --extern borsh="$borsh" -o "$T/demo" "$D/demo.rs" 2>"$T/e"; then
      "$T/demo"
      rc=$?
      [ $rc -eq 0 ] || { echo "demo: exit $rc"; exit 1; }
      echo "demo: ok"
      exit 0
    fi
    if [ ! -s "$T/err" ] || [ $(grep -c '^error' "$T/e") -lt $(grep -c '^error' "$T/err") ]; then cp "$T/e" "$T/err"; fi
  done
done
tail -60 "$T/err"
exit 4
