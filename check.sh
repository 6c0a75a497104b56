#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property of /repo's current tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GVC_VERIF="$PWD"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
if [ ! -x gvc/gvc ]; then
	bash setup.sh || exit 2
fi
exec gvc/gvc check "$1"
