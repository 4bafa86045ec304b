#!/bin/bash
# setup.sh: compile what all checks share, so that the first check starts warm.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/sim" || exit 3
mkdir -p "$here/.build"
go build -o "$here/.build/simctl.setup" ./cmd/simctl && rm -f "$here/.build/simctl.setup"
