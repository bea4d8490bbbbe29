#!/bin/bash
# Builds main.go against the current tree of go-stomp/stomp (the working directory) in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
d=$(mktemp -d)
trap 'find "$d" -mindepth 1 -delete; rmdir "$d"' EXIT
cp "$here"/*.go "$d"/
cat > "$d/go.mod" <<M
module demo

go 1.20

require github.com/go-stomp/stomp/v3 v3.0.0

replace github.com/go-stomp/stomp/v3 => $repo
M
race=
[ -e "$here/race" ] && race=-race
cd "$d" && go build $race -o demo . || exit 3
timeout 200 ./demo
