#!/bin/bash
# check.sh ID [quick|thorough] : exit 0: held on everything explored, 1: violation, 2: no verdict
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
if ! bash "$here/build.sh" >&2; then
  echo "$id: the code cannot be built" >&2
  exit 2
fi
scratch=$(mktemp -d /tmp/gv.XXXXXXXX) || exit 2
trap 'case "$scratch" in /tmp/gv.????????) rm -rf "$scratch" ;; esac' EXIT
trap 'exit 2' INT TERM
cp "$here/target/debug/gv" "$here/target/debug/ginko" "$here/target/debug/ginko_ls" "$scratch/" || exit 2
mkdir "$scratch/w"

# The language server once more, with the thread sanitizer watching it. Where it cannot be built (no nightly
# toolchain), this part is skipped and the evidence says so.
sanitized() {
  if ! bash "$here/build-tsan.sh" >&2; then
    export GV_EXTRA='{"thread_sanitizer":"not built"}'
    return 0
  fi
  mkdir "$scratch/t" "$scratch/t/w" "$scratch/t/out"
  cp "$scratch/gv" "$scratch/ginko" "$scratch/t/"
  cp "$here/target/tsan/x86_64-unknown-linux-gnu/debug/ginko_ls" "$scratch/t/" || return 0
  : >"$scratch/t/tsan"
  cp "$here/known-findings.txt" "$scratch/t/out/"
  "$scratch/gv" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --secs 150 \
    --bin "$scratch/t" --scratch "$scratch/t/w" --out "$scratch/t/out" >"$scratch/t/log"
  local code=$?
  if [ $code -eq 1 ]; then
    mkdir -p "$here/replay/$id"
    rm -rf "$here/replay/$id/sanitized"
    cp -r "$scratch/t/out/replay/$id" "$here/replay/$id/sanitized"
    sed "s#replay=$scratch/t/out/replay/$id/#replay=$here/replay/$id/sanitized/#" "$scratch/t/log"
    return 1
  fi
  tail -1 "$scratch/t/log" | sed 's/^/thread sanitizer: /'
  export GV_EXTRA
  GV_EXTRA=$(tail -1 "$scratch/t/log" | sed 's/["\\]//g; s/.*/{"thread_sanitizer":"&"}/')
  return 0
}
if [ "$tier" = thorough ]; then
  case $id in
    C16 | C17) sanitized || exit 1 ;;
  esac
fi

"$scratch/gv" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --bin "$scratch" --scratch "$scratch/w" --out "$here"
code=$?
case $code in 0 | 1) exit $code ;; *) exit 2 ;; esac
