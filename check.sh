#!/bin/bash
# check.sh PROPERTY [simctl options]: decide one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOTMPDIR=
prop=$1; shift
mkdir -p "$here/.build"
ctl=$(mktemp "$here/.build/simctl.XXXXXX")
trap 'rm -f "$ctl"' EXIT
cd "$here/sim" || exit 3
go build -o "$ctl" ./cmd/simctl || exit 3
"$ctl" -property "$prop" -verif "$here" -repo "${VERIF_REPO:-/repo}" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" "$@"
exit $?
