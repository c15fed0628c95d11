#!/bin/bash
# Runs the test beside this script inside a package of the repository (cwd), through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
pkg=$(cat "$here/pkg")
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
cat > "$w/overlay.json" <<X
{"Replace": {"$repo/parser.go": "", "$repo/unparser.go": "", "$repo/openapi/openapi_test.go": "", "$repo/$pkg/zz_demo_test.go": "$here/demo_test.go"}}
X
TMPDIR=$w go test -vet=off -count=1 -overlay "$w/overlay.json" -run '^TestDemo$' "./$pkg"
