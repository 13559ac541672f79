#!/bin/bash
# Builds the checker and the export data of /repo's dependencies into /verif/.build (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
(cd checker && go build -o ../.build/checker.tmp . && mv ../.build/checker.tmp ../.build/checker)
if [ "$1" != "-nodeps" ]; then ./.build/checker setup; fi
