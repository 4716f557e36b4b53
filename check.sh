#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property for /repo's working tree.
. "$(dirname "$0")/env.sh" || exit 2
[ -n "$2" ] && export VERIF_TIER=$2
[ -x "$VERIF/bin/govc" ] || build_govc || exit 2
exec "$VERIF/bin/govc" -verif "$VERIF" -repo /repo -prop "$1"
