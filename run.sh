#!/bin/bash
# Builds the harness against /repo's current working tree and runs one check.
#   run.sh <ID> [--replay FILE]
#   run.sh --build            build everything once (setup)
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export VERIF_ROOT=$ROOT CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export VERIF_PYTHON=${VERIF_PYTHON:-/opt/vp/venv/bin/python}
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
build() { # <target dir> <cargo args...>
  local dir=$1; shift
  if ! CARGO_TARGET_DIR=$ROOT/target/$dir cargo build --offline --release --quiet "$@" 2> "$ROOT/target/build-$dir.log"; then
    cat "$ROOT/target/build-$dir.log" >&2
    echo "build failed ($dir)" >&2
    exit 2
  fi
}
mkdir -p "$ROOT/target" || exit 2
H=(--manifest-path "$ROOT/harness/Cargo.toml" --bin check)
build_default() { build default "${H[@]}"; }
build_plain() { build plaintext "${H[@]}" --features plaintext-before-extension; }
build_web() { build web --manifest-path "$ROOT/web/Cargo.toml"; }
B=(--manifest-path "$ROOT/bare/Cargo.toml")
build_bare() {
  build bare "${B[@]}" & local p=$!
  build baredec "${B[@]}" --features decryption & local q=$!
  build nodec "${B[@]}" --features std
  wait $p || exit 2
  wait $q || exit 2
}
# The command line tool and the Python module are built as they are in /repo.
build_surfaces() {
  [ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock || exit 2
  export PYO3_PYTHON=$VERIF_PYTHON CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
    CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
  build surfaces --manifest-path /repo/Cargo.toml "$@"
}
build_cli() { build_surfaces -p m-bus-parser-cli; }
build_python() { build_surfaces -p pymbusparser; }
if [ "$1" = --build ]; then build_default; build_plain; build_web; (build_bare) || exit 2; (build_cli) || exit 2; (build_python) || exit 2; exit 0; fi
ID=$1
for EXTRA in plain web bare cli python; do
  if "$ROOT/harness/needs.sh" $EXTRA "$ID"; then build_$EXTRA & P=$!; fi
done
build_default
if [ -n "$P" ]; then wait $P || exit 2; fi
# A call that takes all memory shall fail, not the machine.
ulimit -v 16000000
timeout -k 5 800 "$ROOT/target/default/release/check" "$@"
S=$?
case $S in
  0|1) exit $S;;
  124|137) echo "time limit reached: no verdict" >&2; exit 4;;
  *) echo "check ended with status $S: no verdict" >&2; exit 3;;
esac
