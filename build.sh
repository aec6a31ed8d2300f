#!/bin/bash
# Builds the symbolic engine from its committed sources (offline).
cd "$(dirname "$0")/engine" || exit 2
if [ -x gosym ] && [ -z "$(find . -name '*.go' -newer gosym -print -quit)" ]; then exit 0; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
go build -o gosym.tmp . && mv gosym.tmp gosym
