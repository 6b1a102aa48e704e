#!/bin/bash
# setup.sh: warm the build cache; every check builds its own binary.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/verif-setup.XXXXXX)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
cd "$here/mc" || exit 2
go build -tags verif -o "$scratch/mc" . && "$scratch/mc" -list >/dev/null
