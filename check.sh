#!/bin/bash
# check.sh <property id>: decide one property against /repo's current working tree.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Otherwise: error.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GBT_VERIF="$V"
bash "$V/build.sh" || exit 2
if [ "${VERIF_TIER:-quick}" = thorough ] && [ -z "${GBT_NOFUZZ:-}" ]; then
  GBT_FUZZ="$(bash "$V/build_fuzz.sh")" || exit 2
  export GBT_FUZZ
fi
exec "$V/target/release/gbt-check" check "$1"
