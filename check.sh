#!/bin/bash
# check.sh ID TIER | check.sh replay FILE [-trace]
# Builds the simulator from /repo's working tree and runs one property's exploration.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/nlsim.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
id=$1
[ "$1" = replay ] && id=$(sed -n 's/^ *"property": "\(.*\)",$/\1/p' "$2" | head -1)
# the race detector is only needed where a data race is itself the violation
variant=-norace
case "$id" in P15|P16|P01) variant= ;; P29|P30|P31) variant="-norace -cli" ;; esac
t0=$(date +%s.%N)
if ! "$here/sim/build.sh" "$d" $variant >"$d/build.log" 2>&1; then
  echo "build failed:" >&2; tail -40 "$d/build.log" >&2; exit 2
fi
b=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || python3 -c "import time;print(time.time()-$t0)")
export TMPDIR=$d GORACE="exitcode=0 report_bugs=0"
if [ "$1" = replay ]; then
  f=$2; shift 2
  GORACE="exitcode=0 log_path=$d/race" VSIM_RACELOG="$d/race" "$d/simcheck" -replay "$f" "$@"; rc=$?
else
  id=$1; tier=${2:-quick}; shift 2
  "$d/simcheck" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -builds "$b" -verif "$here" "$@"; rc=$?
fi
exit $rc
