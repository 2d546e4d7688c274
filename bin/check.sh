#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator from /repo's working tree and
# runs the check of one property. Exit 0: held; 1: violated; 2: error.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/bin/build.sh" || { echo "build failed" >&2; exit 2; }
exec "$V/.build/ksim" -prop "$1" -tier "${2:-quick}"
