#!/bin/bash
# Builds every harness binary once so that the Go build cache is warm and a
# harness that does not compile is noticed at once. Nothing is kept.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/vmc.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
rc=0
cut -d' ' -f2- "$here/harness/groups.txt" | sort -u >"$work/groups"
while read -r cmd flags; do
  python3 "$here/harness/overlay.py" "$here" "$work" $flags || exit 3
  (cd /repo && go build -overlay "$work/overlay.json" -o "$work/chk" "./vmc/cmd/$cmd") || rc=1
  case " $flags " in *" race "*)
    (cd /repo && go build -race $(cat "$here/harness/race.flags") -overlay "$work/overlay.json" -o "$work/chk" "./vmc/cmd/$cmd") || rc=1;;
  esac
done <"$work/groups"
mkdir -p "$here/evidence"
exit $rc
