#!/bin/bash
# run.sh <property> [quick|thorough]   run.sh replay <file>   run.sh setup
# Builds the harness and (for J01, J02) the tools from /repo's working tree, then explores.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
target="${DST_TARGET:-$PWD/sim/target}"
mkdir -p "$target" evidence
build() {
  (cd sim && RUSTC_WRAPPER="$PWD/bin/rustcw" cargo build --offline --workspace --target-dir "$target" -q) >"$target/build.log" 2>&1 || { grep -E "^error" -A8 "$target/build.log" | head -60 >&2; echo "BUILD FAILED" >&2; exit 2; }
  export DST_PRE="$target/debug/libdstpre.so"
}
tools() {
  CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --manifest-path /repo/Cargo.toml -p ssbh_lib_json -p ssbh_data_json --target-dir "$target/tools" -q >"$target/tools.log" 2>&1 || { grep -E "^error" -A8 "$target/tools.log" | head -60 >&2; echo "BUILD FAILED" >&2; exit 2; }
}
export DST_SOURCES=/repo/ DST_TOOLS="$target/tools/debug" DST_KNOWN="$PWD/known_findings.txt"
case "$1" in
  setup) build; tools; exit 0 ;;
  replay) build; case "$(grep -o '"property": *"[A-Z0-9]*"' "$2" | head -1)" in *J0*) tools ;; esac; exec "$target/debug/dst" replay "$2" ;;
  J*) tools & t=$!; build; wait $t || exit 2 ;;
  *) build ;;
esac
exec "$target/debug/dst" check "$1" "${2:-${VERIF_TIER:-quick}}"
