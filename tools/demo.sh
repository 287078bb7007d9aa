#!/bin/bash
# runs demo_test.go inside the parser package of the current directory
. /opt/vp/env.sh 2>/dev/null
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
printf '{"Replace": {"%s/parser/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$d/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$d/o.json" -run '^TestZZDemo$' ./parser
