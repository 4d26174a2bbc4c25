#!/bin/bash
# Builds the language server with the thread sanitizer (nightly toolchain, standard library included).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export RUSTFLAGS="--cfg ginko_verif -Zsanitizer=thread"
export CARGO_TARGET_DIR="$here/target/tsan"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN || true
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.gv-lock"
flock 9
for d in "$CARGO_TARGET_DIR"/x86_64-unknown-linux-gnu/debug/.fingerprint/ginko*; do
  [ -d "$d" ] && rm -rf "$d"
done
timeout 600 cargo +nightly build --offline --quiet -Zbuild-std --target x86_64-unknown-linux-gnu \
  --config profile.dev.opt-level=1 --config profile.dev.debug=1 \
  --manifest-path /repo/Cargo.toml --bin ginko_ls
