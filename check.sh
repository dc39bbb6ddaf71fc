#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo, then search. Exit 0 held, 1 violated, anything else: error of the check.
cd "$(dirname "$0")" || exit 3
mkdir -p out evidence
bin=$(bash ./build.sh) || { echo "check.sh: the simulator does not build against /repo" >&2; exit 3; }
exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
