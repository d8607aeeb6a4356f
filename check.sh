#!/bin/bash
# check.sh <ID>: build the monitors and aptutil from the working tree, run one check.
# Exit 0 held, 1 violated (VIOLATION line), 3 inconclusive / harness error.
set -u
ID=$1
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VMON_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1
unset GOFLAGS
umask 022
W=$(mktemp -d /tmp/vmon.XXXXXXXX) || exit 3
chmod 755 "$W"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/work" "$W/bin/race" "$W/bin/plain"
sed "s#=> /repo#=> $REPO#" "$VERIF/mon/go.mod" > "$W/go.mod" && cp "$VERIF/mon/go.sum" "$W/go.sum" || exit 3
cd "$VERIF/mon" || exit 3
F="-mod=mod -modfile=$W/go.mod -buildvcs=false"
CMDS="github.com/cybozu-go/aptutil/cmd/go-apt-cacher github.com/cybozu-go/aptutil/cmd/go-apt-mirror"
# The race detector is built in for the properties it decides, and for every
# check in the thorough tier.
RACE=
case "$ID" in C08|C15|M13) RACE=-race;; esac
[ "${VERIF_TIER:-quick}" = thorough ] && RACE=-race
# Delays at arbitrary places of the code under test are built in; they are
# off unless a workload switches them on for one process (see tools/yield).
(cd "$VERIF/tools/yield" && go build -o "$W/yieldgen" .) >&2 || exit 3
O=
if "$W/yieldgen" "$REPO" "$W/ov" cacher mirror >&2; then O="-overlay $W/ov/overlay.json -tags verifyield"; fi
build() {
	go build $F $1 -o "$W/bin/plain/" $CMDS >&2 || return 1
	if [ -n "$RACE" ]; then
		go build -race $F $1 -o "$W/bin/race/" . $CMDS >&2 || return 1
	else
		go build $F $1 -o "$W/bin/race/" . >&2 || return 1
		ln "$W"/bin/plain/* "$W/bin/race/" || return 1
	fi
}
if ! build "$O"; then
	echo "building without injected delays" >&2
	rm -f "$W"/bin/plain/* "$W"/bin/race/*
	build "" || { echo "build failed" >&2; exit 3; }
fi
export VMON_WORK="$W/work" VMON_BIN="$W/bin" VMON_VERIF="$VERIF"
cd "$W/work"
"$W/bin/race/verifmon" run "$ID"
