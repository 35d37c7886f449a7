#!/bin/bash
# Checks that the framework builds offline, and warms the build cache.
set -e
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd "$(dirname "$(realpath "$0")")/../harness"
go build -o /dev/null ./bb
