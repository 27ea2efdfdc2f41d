#!/bin/bash
# Builds every harness crate once (offline) so that the checks only rebuild what changed.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/env.sh"
for d in "$ROOT"/harness/*/; do
  n=$(basename "$d")
  [ "$n" = vk ] && continue
  build "$n" || { echo "ERROR: building $n failed"; exit 1; }
done
echo "setup done"
