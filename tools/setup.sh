#!/bin/bash
# Warms the Go build cache for the harness (checks also build on their own).
cd "$(dirname "$0")/../harness" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_CFLAGS=-O0
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
go vet -h >/dev/null 2>&1
go build ./... && python3 -c 'import json; json.load(open("../MANIFEST.json"))'
