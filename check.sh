#!/bin/bash
# check.sh PROPERTY [TIER]   build the harness against /repo's working tree and run one property
# check.sh replay FILE       re-execute a replay file
# VERIF_SEED and VERIF_TIER are honoured; VERIF_REPO names another tree (development only).
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
race=" C06 C14 C15 C17 C19 C23 C30 C31 "
what=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
prop=$what
if [ "$what" = replay ]; then
	prop=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
fi
tmp=$(mktemp -d /tmp/vcbuild.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags=
case "$race" in *" $prop "*) flags=-race ;; esac
sed "s#=> /repo\$#=> $repo#" "$here/harness/go.mod" >"$tmp/go.mod"
cp "$here/harness/go.sum" "$tmp/go.sum"
if ! (cd "$here/harness" && go build $flags -modfile="$tmp/go.mod" -o "$tmp/vc" ./cmd/vc); then
	echo "check.sh: the harness does not build against $repo" >&2
	exit 2
fi
if [ "$what" = replay ]; then
	"$tmp/vc" replay "$2"
else
	"$tmp/vc" check -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here"
fi
