#!/bin/bash
# Builds the harness from /repo's current working tree. Exit 0 on success.
# The binary is $VERIF/harness/target/release/vpharness.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$VERIF/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$VERIF/harness/target"
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.vp-lock"
flock 9
# What the binary is made of. Cargo decides by modification times, which a copied
# tree may carry over wrongly, so decide by content.
stamp() {
  { find /repo/trellis /repo/dot_parser -path '*/target' -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum
    sha256sum /repo/Cargo.toml
    find "$VERIF/harness/src" -type f -print0 | sort -z | xargs -0 sha256sum
    sha256sum "$VERIF/harness/Cargo.toml" "$VERIF/harness/Cargo.lock" "$VERIF/build.sh"
    rustc -V
  } 2>/dev/null | sha256sum | cut -d' ' -f1
}
NOW="$(stamp)"
BIN="$CARGO_TARGET_DIR/release/vpharness"
if [ -x "$BIN" ] && [ "$(cat "$CARGO_TARGET_DIR/.vp-stamp" 2>/dev/null)" = "$NOW" ]; then exit 0; fi
rm -f "$CARGO_TARGET_DIR/.vp-stamp"
LOG="$CARGO_TARGET_DIR/vp-build.log"
cargo clean --offline --release -p trellis -p dot_parser -p vpharness >/dev/null 2>&1
HOOKS="triang color ellipse iters"
build() { # build LOG HOOK...: with these hooks, the others are left out
  local log="$1" flags="--cfg vp_hooks" feats="" h; shift
  for h in $HOOKS; do
    case " $* " in *" $h "*) feats="$feats,hook_$h" ;; *) flags="$flags --cfg vp_no_$h" ;; esac
  done
  RUSTFLAGS="$flags" cargo $CMD --offline --locked --release --features "${feats#,}" >"$log" 2>&1
}
CMD=build
if ! build "$LOG" $HOOKS; then
  # A hook may no longer fit the code: the checks that need none of those still run.
  FIT=""
  for h in $HOOKS; do
    if CMD=check build "$LOG.$h" $h; then FIT="$FIT $h"; else echo "note: the hook '$h' does not fit the code (see $LOG.$h)" >&2; fi
  done
  if ! build "$LOG.part" $FIT; then
    echo "build failed:" >&2; grep -E '^error' -A6 "$LOG.part" | head -40 >&2; exit 2
  fi
fi
echo "$NOW" > "$CARGO_TARGET_DIR/.vp-stamp"
