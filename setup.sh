#!/bin/bash
# Everything is built from source; nothing is fetched.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh"
"$here/target/debug/gv" list >/dev/null
