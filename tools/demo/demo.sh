#!/bin/bash
# Runs the demonstration program beside this file against the tree in the
# current directory: exit 0 when the behaviour is right, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*.go; do
    echo "$sep\"$PWD/zzdemo/$(basename "$f")\":\"$f\""; sep=,
  done
  echo '}}'
} > "$work/overlay.json"
go build -overlay "$work/overlay.json" -o "$work/demo" ./zzdemo || exit 3
cd "$work" && timeout 240 ./demo >"$work/out" 2>"$work/err"
rc=$?
grep -a "DEMO FAILED\|panic\|fatal error" "$work/err" | head -5
exit $rc
