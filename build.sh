#!/bin/sh
# build.sh: builds the checker into bin/, if its source is newer.
set -e
here=$(cd "$(dirname "$0")" && pwd)
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export GOFLAGS GOPROXY GOTOOLCHAIN GOWORK
mkdir -p "$here/bin"
if [ -x "$here/bin/bondcheck" ] && [ -z "$(find "$here/checker" -newer "$here/bin/bondcheck" -type f)" ]; then
	exit 0
fi
cd "$here/checker"
go build -o "$here/bin/bondcheck.$$" .
mv "$here/bin/bondcheck.$$" "$here/bin/bondcheck"
