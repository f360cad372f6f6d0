#!/bin/bash
# build.sh DIR [col] [colrace] [race] [cmds]: builds the harness against /repo into
# DIR/bin; of it the histories, either with the race detector, and the tools
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
dir=$1
mkdir -p "$dir"
cp -r "$here/harness" "$dir/src"
cd "$dir/src"
mkdir -p drvpin
for f in drv/*.go; do
  sed -e 's#"github.com/warthog618/sms#"verif/pin#' -e 's#^package drv#package drvpin#' "$f" > "drvpin/$(basename "$f")"
done
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
shift
pids=
go build -o "$dir/bin/" ./cmd/... & pids="$pids $!"
for x; do
  case $x in
    col) go test -c -o "$dir/bin/vcol" ./col & ;;
    colrace) go test -race -c -o "$dir/bin/vcol-race" ./col & ;;
    race) go build -race -o "$dir/bin/vgen-race" ./cmd/vgen & ;;
    cmds) (cd /repo && GOFLAGS= go build -o "$dir/bin/" ./cmd/...) &
      mkdir -p "$dir/bin/pin"; pids="$pids $!"; go build -o "$dir/bin/pin/" ./pin/cmd/... & ;;
  esac
  pids="$pids $!"
done
for p in $pids; do wait "$p"; done
