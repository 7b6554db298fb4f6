#!/bin/bash
# Demonstrates, against the real code in /repo, the defects listed in
# KNOWN_FINDINGS.txt (fixed ones pass). Usage: run.sh [go test -run regexp]
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
cat > "$ov" <<J
{"Replace":{"/repo/zz_defects_test.go":"$here/bond_defects_test.go",
"/repo/zz_defects_ext_test.go":"$here/bond_defects_ext_test.go"}}
J
cd /repo && go test -overlay "$ov" -vet=off -count=1 -timeout 120s -run "${1:-TestD_}" .
