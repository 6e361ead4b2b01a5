#!/bin/bash
# trybug.sh BUG PROPERTY...: run checks against a copy of /repo with a planted bug
# (the checks registered in MANIFEST.json run against /repo itself)
v=$(cd "$(dirname "$0")/.." && pwd)
b=$1; shift
s=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf -- "$s"' EXIT
git -C /repo archive HEAD | tar x -C "$s"
(cd "$s" && git apply --unsafe-paths "$v/seeded/$b/patch.diff") || exit 9
for p in "$@"; do (cd "$v" && PIGRO_REPO=$s python3 check.py $p quick 2>&1 | grep -E "VIOLATION|exit|ERROR|allowed|observed|compiles" | cut -c1-300); done
