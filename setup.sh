#!/bin/bash
# Build the framework once from the committed files.
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF/target" "$VERIF/evidence"
build_main || exit 1
build_asan || exit 1
build_miri >/dev/null || echo "Miri build failed (C19 runs without it)" >&2
exit 0
