#!/bin/bash
# check.sh <ID> [--replay FILE] : build the harness crate deciding <ID> from /repo's working
# tree and run it.  exit 0 held / 1 violation / other: error of the check itself.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$HERE
export VERIF_TARGET=${VERIF_TARGET:-$HERE/target}
. "$HERE/harness/env.sh"
ID=$1
EXTRA=
ONE=
case "$ID" in
  C0[1-6]) CR=vh_bf ;;
  C0[78]) CR=vh_chain; EXTRA="-p vh_prover" ;;
  C09|C1[0-9]|C3[23]) CR=vh_proofs; ONE=1 ;;
  C2[0-6]) CR=vh_curves; ONE=1 ;;
  C2[7-9]|C3[01]) CR=vh_gadgets; ONE=1 ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
# these crates hold many checks: compile only the one asked for
[ -n "$ONE" ] && EXTRA="--no-default-features --features $ID"
mkdir -p "$HERE/evidence"
cd "$HERE/harness" || exit 2
LOG=$(mktemp)
if ! cargo build --offline --locked --release -p "$CR" $EXTRA >"$LOG" 2>&1; then
  cat "$LOG" >&2; rm -f "$LOG"; echo "build failed" >&2; exit 2
fi
rm -f "$LOG"
if [ "${VERIF_TIER:-quick}" = thorough ]; then LIM=${VERIF_LIMIT:-21600}; else LIM=${VERIF_LIMIT:-840}; fi
timeout -k 10 "$LIM" "$VERIF_TARGET/release/$CR" "$@"
RC=$?
case $RC in 0|1) exit $RC ;; *) echo "check did not finish (rc $RC)" >&2; exit 2 ;; esac
