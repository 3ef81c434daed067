#!/bin/bash
# tools/check.sh <ID> [quick|thorough]: builds the harness against /repo's working tree and runs one check
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
bash "$V/tools/build.sh" "$ID" || { echo "build of the check failed" >&2; exit 2; }
export MC_VERIF=$V
exec "$V/target/debug/mc" "$ID" "$TIER"
