#!/bin/bash
# build.sh OUTDIR [-norace]: builds OUTDIR/simcheck from /repo's working tree
set -e
. /opt/vp/env.sh 2>/dev/null || true; [ -n "$VGC" ] && export GOCACHE=$VGC
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=$1; shift
race=-race; if [ "$1" = -norace ]; then race=; shift; fi
# the command line and the HTTP server need more packages; only their own checks include them
tags=; if [ "$1" = -cli ]; then tags="-tags cli"; fi
mkdir -p "$out/src"
(cd $here/instr && GOFLAGS= go build -o "$out/instr" .)
"$out/instr" -repo $repo -out "$out/src" -vsim $here/vsim -harness $here/harness -goroot "$(go env GOROOT)" "$@"
cp $repo/go.mod "$out/go.mod"; cp $repo/go.sum "$out/go.sum"
v=$(awk '$1=="go"{print $2}' "$out/go.mod")
case "$v" in 1.1[0-9]|1.1[0-9].*|1.20|1.20.*) sed -i 's/^go .*/go 1.21/' "$out/go.mod";; esac
# size-specialised allocation in packages built without instrumentation does not tell the
# race detector that memory is new, which would yield reports about memory used before
[ -n "$race" ] && GOEXPERIMENT=nosizespecializedmalloc go env GOVERSION >/dev/null 2>&1 && export GOEXPERIMENT=nosizespecializedmalloc
cd $repo
go build $race $tags -overlay "$out/src/overlay.json" -modfile "$out/go.mod" \
  -gcflags='github.com/mlnoga/nightlight/internal/zzverif/...=-race=false' \
  -o "$out/simcheck" ./internal/zzverif/harness
