#!/bin/bash
# check.sh PROPERTY TIER: decides one property of the current source of /repo.
cd "$(dirname "$0")"
id=$1; tier=${2:-quick}
viol() { mkdir -p evidence; echo "$1" > evidence/$id.violations.txt; echo "$1"; echo "VIOLATION property=$id replay=evidence/$id.violations.txt"; exit 1; }
h=$(cat analyzer/*.go analyzer/baseline.txt analyzer/go.mod analyzer/go.sum | sha256sum | cut -c1-16)
if [ ! -x bin/katiecheck-$h ]; then out=$(bash ./setup.sh 2>&1) || { echo "$out"; exit 2; }; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
timeout 850 ./bin/katiecheck-$h -property "$id" -tier "$tier" -repo /repo -verif "$PWD"
rc=$?
case $rc in
  0|1) exit $rc;;
  *) viol "the analysis of /repo's current source did not finish (exit code $rc): the property is not established";;
esac
