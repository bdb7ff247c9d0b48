#!/bin/bash
# check.sh <property>: rebuilds what the check needs from /repo's working tree
# and runs it. Exit 0 held, 1 violation (VIOLATION line), anything else: no answer.
set -u
ID=$1
VERIF=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$VERIF VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$VERIF/env.sh"
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID.XXXXXX") || exit 4
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$VERIF/evidence"
rm -f "$VERIF/evidence/$ID.json" "$VERIF/evidence/replay-$ID.json"
case $ID in
C01 | C02 | C03 | C04 | C05)
	(cd "$VERIF/harness" && GOWORK=off go build -mod=readonly -o "$WORK/lib" ./cmd/lib) || exit 4
	"$WORK/lib" -prop "$ID"
	exit $?
	;;
C06 | C07 | C08 | C09 | C1[0-9] | C2[0-2])
	(cd "$VERIF/harness" && GOWORK=off go build -mod=readonly -o "$WORK/gen" ./cmd/gen) || exit 4
	"$WORK/gen" -prop "$ID" -work "$WORK"
	exit $?
	;;
*)
	echo "unknown property $ID" >&2
	exit 2
	;;
esac
