#!/bin/bash
# Compiles the harness once, so that the checks find their packages in Go's
# build cache, and tests the reference model against the hardware's floats.
cd "$(dirname "$0")/harness" || exit 2
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS="$GOFLAGS -buildvcs=false"
go vet ./... && go test ./oracle || exit 1
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/" ./cmd/... && GOARCH=386 go build -o "$d/" ./cmd/core ./cmd/strfmt && CGO_ENABLED=1 go build -race -o "$d/" ./cmd/core ./cmd/strfmt
