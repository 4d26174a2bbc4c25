#!/bin/bash
# Builds the command line tool, the language server and the monitors from /repo's working tree into /verif/target.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export RUSTFLAGS="--cfg ginko_verif"
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN || true
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.gv-lock"
flock 9
# What is built follows the contents of the sources, not their times
hash=$(cd / && find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f \
  \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/.gv-sources"
if [ "$(cat "$stamp" 2>/dev/null || true)" != "$hash" ]; then
  rm -f "$stamp"
  for d in "$CARGO_TARGET_DIR"/debug/.fingerprint/ginko* "$CARGO_TARGET_DIR"/debug/.fingerprint/gv-*; do
    [ -d "$d" ] && rm -rf "$d"
  done
fi
profile=(--config profile.dev.opt-level=1 --config profile.dev.debug=1
  --config profile.dev.debug-assertions=true --config profile.dev.overflow-checks=true)
tools() { cargo build --offline --quiet "${profile[@]}" --manifest-path /repo/Cargo.toml --bins; }
monitors() { cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml" "$@"; }
if ! { tools && monitors; }; then
  # Without the types of the syntax tree, all checks but C03 still work
  echo "trying without the syntax tree" >&2
  export RUSTFLAGS=""
  tools
  monitors --no-default-features
fi
echo "$hash" >"$stamp"
