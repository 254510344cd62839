#!/bin/bash
# Builds the symbolic executor from engine/ (offline).
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
mkdir -p bin evidence
exec 9>bin/.lock
flock 9
if [ -x bin/gosym ] && [ -z "$(find engine -newer bin/gosym -name '*.go')" ]; then exit 0; fi
cd engine && go build -o ../bin/gosym . && echo built
