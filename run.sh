#!/bin/bash
# usage: run.sh <property> [repo]   builds the checker and decides one property
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bin="$here/.bin/checker"
mkdir -p "$here/.bin"
(cd "$here/checker" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || {
  # an unbuildable checker decides nothing
  echo "checker does not build"; exit 2; }
[ "$1" = setup ] && exit 0
exec "$bin" -repo "${2:-/repo}" -verif "$here" -prop "$1"
