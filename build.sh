#!/bin/bash
# build.sh KIND: builds one simulator binary from /repo's working tree into build/.
set -u
kind=$1
cd "$(dirname "$0")" || exit 2
root=$PWD
mkdir -p build evidence replays
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
out=$root/build/vsim-$kind
args=()
case $kind in
lib)  pkg=./cmd/vsim ;;
hook) pkg=./cmd/vsimhook
      python3 tools/overlay.py hook > build/overlay-hook.json || exit 2
      args=(-overlay "$root/build/overlay-hook.json") ;;
race) pkg=./cmd/vsimrace; export CGO_ENABLED=1
      python3 tools/overlay.py race > build/overlay-race.json || exit 2
      args=(-race -overlay "$root/build/overlay-race.json") ;;
cli)  pkg=./cmd/vsimcli
      (cd sim && go build -o ../build/rewrite ./cmd/rewrite) || exit 2
      build/rewrite /repo "$root/build/cli-src" > build/overlay-cli.json || exit 2
      args=(-overlay "$root/build/overlay-cli.json") ;;
*) echo "unknown kind $kind" >&2; exit 2 ;;
esac
cd sim || exit 2
go build "${args[@]}" -o "$out.$$" $pkg >"$root/build/build-$kind.log" 2>&1 || { echo "build of $kind failed:" >&2; cat "$root/build/build-$kind.log" >&2; rm -f "$out.$$"; exit 2; }
mv -f "$out.$$" "$out"
