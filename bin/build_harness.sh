#!/bin/bash
# build_harness.sh OUT [go test flags]: compile the replay harness against /repo's working tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VF_REPO:-/repo}
out=$(realpath -m "$1"); shift
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=$V/build/gocache
mkdir -p "$GOCACHE" "$(dirname "$out")"
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
python3 - "$V" "$R" > "$ov" <<'P'
import glob, json, os, sys
v, r = sys.argv[1:]
print(json.dumps({"Replace": {r + "/zz_" + os.path.basename(f): f for f in glob.glob(v + "/harness/*_test.go") + (glob.glob(v + "/harness/cov/*_test.go") if os.environ.get("VF_COV") else [])}}))
P
cd "$R"
go test -c -vet=off -overlay "$ov" -o "$out" "$@" .
