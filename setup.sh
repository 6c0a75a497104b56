#!/bin/bash
# Builds the verifier from the committed files, offline.
cd "$(dirname "$0")/gvc" || exit 2
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
go build -o gvc . 
