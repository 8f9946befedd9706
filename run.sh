#!/bin/bash
# run.sh Cxx  -- decide one property on the current source of /repo (static analysis; nothing of /repo is run).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="${1:?property id}"
repo="${VERIF_REPO:-/repo}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME="${HOME:-/root}"
an="$here/bin/an"
newest="$(ls -t "$here"/analyzer/*.go "$here"/analyzer/go.mod 2>/dev/null | head -1)"
if [ ! -x "$an" ] || [ "$newest" -nt "$an" ]; then
  mkdir -p "$here/bin"
  tmp="$here/bin/an.$$.tmp"
  if ! (cd "$here/analyzer" && go build -o "$tmp" . ) >"$here/bin/build.log" 2>&1; then
    cat "$here/bin/build.log"; echo "analyzer does not build"; exit 3
  fi
  mv -f "$tmp" "$an"
fi
[ "$prop" = build ] && exit 0
exec "$an" -property "$prop" -repo "$repo" -verif "$here" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}"
