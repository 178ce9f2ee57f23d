#!/bin/bash
# usage: run.sh <property> quick|thorough [flags]    decide one property on /repo's current tree
#        run.sh <property> replay <file>             re-execute one recorded violation
# The harness packages are compiled into /repo's module with a build overlay
# (nothing is written under /repo); the binary and overlay live in a scratch
# directory that is removed at the end.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}; shift; shift || true
. /opt/vp/env.sh
cmd=$(awk -v p="$prop" '$1==p{print $2}' "$here/harness/groups.txt")
flags=$(awk -v p="$prop" '$1==p{$1=$2="";print}' "$here/harness/groups.txt")
[ -n "$cmd" ] || { echo "unknown property $prop" >&2; exit 3; }
work=$(mktemp -d /tmp/vmc.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
python3 "$here/harness/overlay.py" "$here" "$work" $flags || exit 3
(cd /repo && go build -overlay "$work/overlay.json" -o "$work/chk" "./vmc/cmd/$cmd") >"$work/build.log" 2>&1 || {
  echo "harness does not build against the current tree:"; head -40 "$work/build.log"; exit 3; }
case " $flags " in *" race "*)
  (cd /repo && go build -race $(cat "$here/harness/race.flags") -overlay "$work/overlay.json" -o "$work/chk-race" "./vmc/cmd/$cmd") >"$work/build.log" 2>&1 || {
    echo "harness does not build against the current tree with the race detector:"; head -40 "$work/build.log"; exit 3; }
  export VMC_RACE_EXE="$work/chk-race";;
esac
mkdir -p "$here/evidence"
if [ "$tier" = replay ]; then
  "$work/chk" -property "$prop" -verif "$here" -replay "$1"; exit $?
fi
"$work/chk" -property "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$here" "$@"
