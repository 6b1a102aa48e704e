#!/bin/bash
# check.sh <property> <quick|thorough>: build the model checker with /repo's
# working tree (hooks on) in a scratch directory and decide one property.
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
id="$1"; tier="${2:-quick}"
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/verif-mc.XXXXXX)" || exit 2
case "$scratch" in /tmp/verif-mc.*) ;; *) exit 2;; esac
trap 'rm -rf -- "$scratch"' EXIT
export TMPDIR="$scratch"
cd "$here/mc" || exit 2
if ! go build -tags verif -o "$scratch/mc" . ; then
	echo "check $id: /repo does not build" >&2
	exit 2
fi
if [ "$id" = C13 ] || [ "$id" = C29 ]; then
	go build -race -tags "verif verif_nomemo" -o "$scratch/mc-race" . || exit 2
	export MC_RACE="$scratch/mc-race"
fi
"$scratch/mc" -check "$id" -tier "$tier" -verif "$here"
exit $?
