#!/bin/bash
# Builds both simulator variants once, to warm the build cache and to fail early.
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d /tmp/nlsetup.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
sim/build.sh "$d/a" -norace && sim/build.sh "$d/b" || exit 1
mkdir -p evidence replays
