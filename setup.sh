#!/bin/bash
# Builds the engine (offline, from committed sources) into bin/.
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
GO=go
go version 2>/dev/null | grep -qE 'go1\.(2[6-9])' || GO=$(ls -d /opt/veriftools/go1.2[67]*/bin/go 2>/dev/null | tail -1)
"$GO" build -o ../bin/gosym .
