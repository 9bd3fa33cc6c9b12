#!/bin/bash
# Builds the analyzer from the committed sources into /verif/bin (offline).
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod"
mkdir -p bin evidence
h=$(cat analyzer/*.go analyzer/baseline.txt analyzer/go.mod analyzer/go.sum | sha256sum | cut -c1-16)
if [ -x bin/katiecheck-$h ]; then exit 0; fi
(cd analyzer && go build -o ../bin/katiecheck-$h.tmp.$$ .)
mv bin/katiecheck-$h.tmp.$$ bin/katiecheck-$h
