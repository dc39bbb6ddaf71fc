#!/bin/bash
# replay.sh <file>: rebuild from /repo and re-run one minimised schedule and fault trace. Exit 1: the violation is reproduced exactly.
f=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 3
mkdir -p out evidence
bin=$(bash ./build.sh) || exit 3
exec "$bin" replay "$f"
