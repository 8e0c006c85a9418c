#!/bin/bash
# Run the harness under Miri (built into target/miri by env.sh's build_miri).
. "$(dirname "$0")/../env.sh"
miri_env
export MIRIFLAGS="$MIRIFLAGS -Zmiri-seed=${HARNESS_MIRI_SEED:-1}"
cd "$VERIF/harness" || exit 3
exec timeout -k 5 "${HARNESS_MIRI_LIMIT:-600}" cargo miri run --offline -q -- "$@"
