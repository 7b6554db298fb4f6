#!/bin/sh
# check.sh ID: builds the checker from its source in checker/ and lets it
# decide property ID on the current source of /repo.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
repo=${BOND_REPO:-/repo}
fail() {
	mkdir -p "$here/evidence"
	echo "$1" | tee "$here/evidence/$id.violation.txt"
	echo "VIOLATION property=$id replay=$here/evidence/$id.violation.txt"
	exit 1
}
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export GOFLAGS GOPROXY GOTOOLCHAIN GOWORK
bin=$here/bin/bondcheck
mkdir -p "$here/bin"
if ! "$here/build.sh" >"$here/bin/build.$$.log" 2>&1; then
	cat "$here/bin/build.$$.log"
	rm -f "$here/bin/build.$$.log"
	fail "the checker does not build"
fi
rm -f "$here/bin/build.$$.log"
timeout 850 "$bin" -property "$id" -repo "$repo" -verif "$here"
rc=$?
case $rc in
0 | 1) exit $rc ;;
*) fail "the checker ended with status $rc" ;;
esac
