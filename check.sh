#!/bin/bash
# check.sh ID [quick|thorough]   - rebuild from /repo's working tree, run the check
# check.sh --replay FILE         - repeat one reported case
. "$(dirname "$0")/env.sh"
if [ "$1" = --replay ]; then
  FILE=$(realpath "$2")
  ID=$(sed -n 's/^property=//p' "$FILE")
else
  ID=$1
  TIER=${2:-${VERIF_TIER:-quick}}
fi
mkdir -p "$VERIF/target" "$VERIF/evidence"
exec 9>"$VERIF/target/.lock"
flock 9
LOG=$VERIF/target/build-$ID.log
if ! build_main >"$LOG" 2>&1; then
  echo "check error: the harness does not build against /repo" >&2
  tail -40 "$LOG" >&2
  exit 4
fi
if [ "$ID" = C19 ]; then
  # the sanitizer and the interpreter run the same workloads; where this tree does
  # not build with the nightly compiler the check rests on the counting allocator
  if build_asan >>"$LOG" 2>&1; then
    export HARNESS_ASAN=$VERIF/target/asan/x86_64-unknown-linux-gnu/debug/harness
  else
    export HARNESS_NOTES="the AddressSanitizer build failed"
  fi
  build_miri >>"$LOG" 2>&1
  if [ $? -le 1 ]; then
    export HARNESS_MIRI=$VERIF/tools/miri-run.sh
  else
    export HARNESS_NOTES="$HARNESS_NOTES
the Miri build failed"
  fi
  export HARNESS_MIRI_LIMIT=${HARNESS_MIRI_LIMIT:-$([ "$TIER" = thorough ] && echo 330 || echo 150)}
  if [ "$TIER" = thorough ]; then
    export HARNESS_ASAN_SECS=${HARNESS_ASAN_SECS:-200} HARNESS_MIRI_SECS=${HARNESS_MIRI_SECS:-200}
  else
    export HARNESS_ASAN_SECS=${HARNESS_ASAN_SECS:-50} HARNESS_MIRI_SECS=${HARNESS_MIRI_SECS:-60}
  fi
fi
flock -u 9
if [ "$1" = --replay ]; then
  exec "$VERIF/target/main/debug/harness" --replay "$FILE" 9>&-
fi
exec "$VERIF/target/main/debug/harness" "$ID" "$TIER" 9>&-
