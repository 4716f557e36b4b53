#!/bin/bash
# Builds the verifier and warms the build cache.
. "$(dirname "$0")/env.sh" || exit 1
build_govc || exit 1
cd "$VERIF" || exit 1
"$VERIF/bin/govc" -verif "$VERIF" -concrete 1s
