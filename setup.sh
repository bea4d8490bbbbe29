#!/bin/bash
# Warms the Go build cache; every check builds for itself as well.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOEXPERIMENT=nogreenteagc
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
cp -r harness "$d/harness" && cd "$d/harness" && go test -c -vet=off -o "$d/h.test" . && go test -c -race -vet=off -o "$d/hr.test" .
