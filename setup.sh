#!/bin/bash
# builds the verifier from the committed sources, offline
set -e
cd "$(dirname "$0")/govc"
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor
mkdir -p ../bin ../out
go build -o ../bin/govc .
