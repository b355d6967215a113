#!/bin/sh
# builds the verifier from the committed sources, offline
cd "$(dirname "$0")/gocv" || exit 2
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local exec go build -o ../bin/gocv .
