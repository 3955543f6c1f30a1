#!/bin/bash
# run.sh PROPERTY : decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
bash setup.sh || exit 2
exec ./bin/gosym -repo /repo -verif /verif -prop "$1" -tier "${VERIF_TIER:-quick}"
