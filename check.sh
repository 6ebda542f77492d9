#!/bin/bash
# usage: check.sh PROPERTY  -- decides one property of /repo's working tree
D=$(cd "$(dirname "$0")" && pwd)
export GOVC_VERIF=$D
bash "$D/setup.sh" || { echo "the verifier cannot be built"; exit 2; }
exec "$D/.build/govc" check "$1" "${VERIF_TIER:-quick}"
