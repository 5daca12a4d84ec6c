#!/bin/bash
# usage: run.sh <property> [quick|thorough]   builds the monitors against /repo's working tree and runs one check
#        run.sh replay <file>
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTELEMETRY=off
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER=$2
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$here"/harness/*.go "$here"/harness/go.mod "$here"/harness/go.sum "$tmp"/ || exit 1
id=$1
[ "$1" = replay ] && id=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
flags=()
case " $(cat "$here"/harness/race.txt) " in *" $id "*) export CGO_ENABLED=1; flags=(-race);; esac
if ! (cd "$tmp" && go build "${flags[@]}" -o verif . ) >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log"
  echo "the monitors do not build against /repo"
  exit 3
fi
if [ "$id" = C34 ] || [ "$id" = C38 ]; then # the command line tools
  export VERIF_BIN=$tmp/bin
  mkdir "$VERIF_BIN"
  if ! (cd /repo && CGO_ENABLED=0 go build -o "$VERIF_BIN/goselect" . && for t in nestedlasso plotlasso cohenlasso mem; do
      CGO_ENABLED=0 go build -o "$VERIF_BIN/goselect-$t" ./cmdDepreciated/goselect-$t || exit 1; done) >"$tmp/build.log" 2>&1; then
    cat "$tmp/build.log"
    echo "the command line tools do not build"
    exit 3
  fi
fi
if [ "$1" = replay ]; then "$tmp/verif" replay "$2"; else "$tmp/verif" run "$id"; fi
rc=$?
exit $rc
