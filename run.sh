#!/bin/bash
# run.sh PROPERTY  - builds what the check of PROPERTY needs from /repo's working
# tree (release build of the harness with the hooks on; for some properties other
# builds too) and runs it. VERIF_SEED and VERIF_TIER are read from the environment.
# C14 and C19 also need the audit hook (cfg bladeink_verif_audit); it reads many
# private items of the runtime, so it is compiled for these two only.
cd "$(dirname "$0")" || exit 2
export VH_DIR="$PWD"
. harness/env.sh
BASE="$RUSTFLAGS" AUDIT="$RUSTFLAGS --cfg bladeink_verif_audit"
mkdir -p work
build() { # name, flags, target dir, args
  local n="$1" f="$2" t="$3"; shift 3
  (cd harness && RUSTFLAGS="$f" CARGO_TARGET_DIR="$VH_DIR/$t" cargo build --offline --quiet "$@") >work/build.log 2>&1
}
need() { build "$@" || { echo "ERROR: build failed ($1)"; tail -40 work/build.log; exit 2; }; }
stream=(--profile checked --features stream)
case "$1" in
  C14)
    if build audit "$AUDIT" target-audit --release && build stream-audit "$AUDIT" target-stream-audit "${stream[@]}"; then
      exec target-audit/release/vh check C14
    fi
    echo "NOTE: the audit hook does not build; only plays are compared"
    need release "$BASE" target --release
    need stream "$BASE" target-stream "${stream[@]}"
    exec target/release/vh check C14 ;;
  C19)
    need audit "$AUDIT" target-audit --release
    exec target-audit/release/vh check C19 ;;
esac
need release "$BASE" target --release
case "$1" in
  C03|C04) need debug "$BASE" target ;;
  C15) need stream "$BASE" target-stream "${stream[@]}" ;;
  C20) (cd /repo && RUSTFLAGS= CARGO_TARGET_DIR="$VH_DIR/target-cli" cargo build --offline --quiet --release -p rinklecate) >work/build.log 2>&1 || { echo "ERROR: build failed (rinklecate)"; tail -40 work/build.log; exit 2; } ;;
esac
exec target/release/vh check "$1"
