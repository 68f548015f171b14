#!/bin/bash
# usage: check.sh <property> quick|thorough|replay <file>
#        check.sh build            (builds both harnesses)
# Rebuilds the harness (and with it the crates of /repo it links) from /repo's
# current working tree, then runs the check.
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
SEED=${VERIF_SEED:-0}
. /opt/vp/svm-env.sh
export VERIF_SEED=$SEED VERIF_DIR=$HERE
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0

# Properties whose harness links no runtime.
LANG_PROPS=" V09 V10 V11 V12 V13 V15 V19 V26 V27 "

fixtures() {
  # The genesis template is embedded into the runtime; it is git-ignored in /repo.
  ( unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
    . /opt/vp/svm-env.sh
    t=/repo/simple-coin-transfer-template
    build_fixture $t simple_coin_transfer_template $t/simple_coin_transfer_template.wasm )
}

build() { # lang|rt
  local log=$HERE/work/build-$1.$$.log
  mkdir -p "$HERE/work"
  if [ "$1" = rt ]; then
    fixtures >"$log" 2>&1 || { tail -n 40 "$log"; echo "BUILD FAILED (fixture)"; exit 4; }
  fi
  ( cd "$HERE/harness/$1" && CARGO_TARGET_DIR=$HERE/target/$1 cargo build --offline --locked ) >"$log" 2>&1 ||
    { grep -A12 "^error" "$log" | head -n 80; echo "BUILD FAILED ($1)"; rm -f "$log"; exit 4; }
  rm -f "$log"
}

# The templates written with the SDK, and the command line tool.
templates() {
  local log=$HERE/work/build-templates.$$.log
  mkdir -p "$HERE/work" "$HERE/target/templates-src"
  cp -a "$HERE/harness/templates/." "$HERE/target/templates-src/"
  ( cd "$HERE/target/templates-src" &&
    CARGO_TARGET_DIR=$HERE/target/templates cargo build --offline --locked --release --target wasm32-unknown-unknown --examples &&
    cd /repo && CARGO_TARGET_DIR=$HERE/target/cli cargo build --offline --locked -p svm-cli ) >"$log" 2>&1 ||
    { grep -A12 "^error" "$log" | head -n 80; echo "BUILD FAILED (templates)"; rm -f "$log"; exit 4; }
  rm -f "$log"
}

if [ "${1:-}" = build ]; then
  build lang; build rt; templates
  exit 0
fi
P=${1:?property}; T=${2:?tier}
case "$LANG_PROPS" in *" $P "*) K=lang ;; *) K=rt ;; esac
build $K
case "$P" in V21|V22) templates ;; esac
exec "$HERE/target/$K/debug/vh-$K" "$P" "$T" "${@:3}"
