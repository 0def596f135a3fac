#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   decide one property on /repo's current tree
#        check.sh replay FILE                 replay a recorded failing input on /repo's current tree
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=${GOVER_REPO:-/repo}
bin=$(mktemp -d)
trap 'rm -rf "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin/gover" .) || { echo "the verifier does not build"; exit 2; }
if [ "$1" = replay ]; then
	"$bin/gover" replay "$repo" "$here" "$2"
else
	"$bin/gover" check "$repo" "$here" "$1" "${2:-${VERIF_TIER:-quick}}"
fi
