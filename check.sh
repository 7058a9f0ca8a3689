#!/bin/bash
# check.sh <property> <quick|thorough>   decide one property against /repo's working tree
# check.sh replay <file>                 run one saved failure again
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=/root/go GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
unset PG_HOST VAULT_ADDRESS DYDB_ENDPOINT_URL ESDB_IP_ADDR GOMAXPROCS GODEBUG
here=$(cd "$(dirname "$0")" && pwd)
export PBT_HARNESS=$here/harness
if [ "$1" = replay ]; then set -- replay "$(realpath "$2")"; fi
bin=$(mktemp -d) || exit 2
trap 'rm -f "$bin/driver"; rmdir "$bin"' EXIT
cd "$PBT_HARNESS" || exit 2
go build -o "$bin/driver" ./cmd/driver || exit 2
"$bin/driver" "$@"
