#!/bin/bash
# check.sh check <property> | replay <file> | selftest
# Builds the driver and, from /repo's working tree, the simulated processes.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="$here/.cache/go"
export VERIF_HOME="$here"
mkdir -p "$here/.cache"
bin="$(mktemp -d)"
trap 'rm -rf "$bin"' EXIT
(cd "$here/sim" && go build -o "$bin/driver" ./driver) || exit 2
"$bin/driver" "$@"
