#!/bin/bash
# check.sh <PROPERTY> [sub-check]   — builds the harness crate that owns the property from /repo's
# current tree (hooks on: --cfg kogarashi_verif) and runs it. VERIF_SEED / VERIF_TIER as documented.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$ROOT/tools/env.sh"
P=${1:?property}
# single cases of the recursion take up to minutes
case "$P" in C23|C24|C25|C27) export VK_HANG_S=${VK_HANG_S:-700} ;; esac
case "$P" in
  C01|C02|C03|C04|C05|C06|C07|C08|C09) CRATE=arith ;;
  C10|C11|C12|C13) CRATE=circuits ;;
  C14|C15|C16|C17|C18|C26) CRATE=groth ;;
  *) CRATE=nova ;;
esac
build "$CRATE" || { echo "ERROR: harness build failed"; exit 2; }
# a case that allocates without end fails an allocation (a crash, reported) before it exhausts the machine
ulimit -v 20971520
exec "$CARGO_TARGET_DIR/release/$CRATE" "$@"
