#!/bin/bash
# Builds the symbolic executor (offline).
set -e
cd "$(dirname "$0")/symgo"
mkdir -p ../bin
GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o ../bin/symgo .
