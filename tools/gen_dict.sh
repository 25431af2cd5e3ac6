#!/bin/bash
# Rewrites the base dictionary (see harness/checks/dict_test.go) from /repo.
set -e
cd "$(dirname "$0")/../harness"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
t=$(mktemp)
go test -c -vet=off -o "$t" ./checks
VERIF_DICT=1 "$t" > checks/dict_base.json.new
mv checks/dict_base.json.new checks/dict_base.json
rm "$t"
