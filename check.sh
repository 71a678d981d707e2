#!/bin/bash
# check.sh ID [mc options]: build the model checker against /repo's working tree and decide property ID.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export VERIF_ROOT=${DEV_ROOT:-$here}
id=$1; shift
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
cd "$here/mc" || exit 2
repo=/repo
if [ -n "${DEV_REPO:-}" ]; then # development only: judge a scratch copy
  repo=$DEV_REPO
  sed "s#=> /repo#=> $repo#; s#=> ../vshim#=> $here/vshim#" go.mod >"$T/dev.mod"; : >"$T/dev.sum"
  export GOFLAGS="-mod=mod -modfile=$T/dev.mod"
fi
case $id in
C05|C06|C29|C31)
  all=; [ $id = C31 ] && all=-all
  if go build -o "$T/instr" ./cmd/instr && "$T/instr" $all -repo "$repo" -shim "$here/vshim" -out "$T/ov" && \
     go build -overlay "$T/ov/overlay.json" -o "$T/mc" ./cmd/mcc 2>"$T/err"; then :
  else
    cat "$T/err" 2>/dev/null | head -20
    echo "note: instrumented build failed, falling back to the plain build"
    go build -tags plain -o "$T/mc" ./cmd/mcc || exit 2
  fi ;;
*)
  go build -o "$T/mc" ./cmd/mc || { echo "error: build failed"; exit 2; } ;;
esac
"$T/mc" -prop "$id" "$@"
