#!/bin/bash
# Builds the engine into /verif/bin (nothing is downloaded).
cd "$(dirname "$0")/engine" || exit 2
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin
exec go build -o ../bin/engine .
