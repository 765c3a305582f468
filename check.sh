#!/bin/bash
# check.sh ID: rebuilds the harness from /repo and decides property ID.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: error.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$VERIF"
bash "$VERIF/build.sh" || exit 2
exec "$VERIF/harness/target/release/vpharness" check "$@"
