#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on the source in /repo.
# Builds the analyser when it is missing or older than its source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
unset GOROOT 2>/dev/null || true
export HOME="${HOME:-/root}"
bin="$here/bin/fluverify"
build() {
	mkdir -p "$here/bin" &&
		(cd "$here/checker" && go build -o "$bin.$$" .) && mv -f "$bin.$$" "$bin"
}
if [ "${1:-}" = setup ]; then
	build || exit 2
	exit 0
fi
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -name '*.go' -print -quit)" ]; then
	build || exit 2
fi
exec "$bin" -repo "${REPO:-/repo}" -verif "$here" -prop "$1" -tier "${2:-quick}"
