#!/bin/bash
# builds the analyser, offline, from the committed files
cd "$(dirname "$0")/jsa" || exit 2
mkdir -p ../bin
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
unset GOROOT
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
exec /usr/local/bin/go build -o ../bin/jsa .
