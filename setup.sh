#!/bin/bash
# builds the verifier once, to see that it builds here (each check rebuilds it)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cd "$here/engine" && go build -o "$out/gover" .
