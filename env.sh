export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
GO=/usr/local/bin/go1.23
command -v $GO >/dev/null || GO=go
GO2=/usr/local/bin/go1.26
command -v $GO2 >/dev/null || GO2=go
