#!/bin/bash
# selftest/run.sh [DIFF...]: verify the contracts on copies of /repo with each edit applied.
# benign/: edits that keep the behaviour (expected: nothing printed below the name, or "unsup" = bounded stand-in);
# broken/: edits that break a property (expected: FAILED obligations). Not used by any check.
here=$(cd "$(dirname "$0")" && pwd); . /opt/vp/env.sh
export W=$(mktemp -d) here; trap 'rm -rf "$W"' EXIT
(cd "$here/../engine" && go build -o "$W/gover" .) || exit 2
one() {
	p=$(realpath "$1"); n=$(basename "$p" .diff); r=$W/$n; cp -a /repo "$r"
	(cd "$r" && git apply "$p") || { echo "== $n does not apply"; rm -rf "$r"; return; }
	f="CheckWIF PrivateFromWIF PrivateFromHex GeneratePrivateKey AddPrivateKeys MultiplyPrivateKeys PrivateKey.GetPublicKey PublicKey.Format PublicFromHex PublicKey.Address AddPublicKeys NewMnemonic"
	grep -q 'b/mnemonic.go\|b/util.go\|b/btc.go' "$p" && f="$f NewSeedFromMnemonic"
	o=$(GOVER_REPO=$r timeout 900 "$W/gover" verify $f 2>&1 | grep -E 'FAILED|unsup="[^"]|^err|panic:' | cut -c1-200 | head -4)
	echo "== $n${o:+
$o}"; rm -rf "$r"
}
export -f one
[ $# -gt 0 ] || set -- "$here"/benign/*.diff "$here"/broken/*.diff
printf '%s\n' "$@" | xargs -P "${J:-4}" -I{} bash -c 'one {}'
