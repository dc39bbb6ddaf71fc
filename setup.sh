#!/bin/bash
cd "$(dirname "$0")" || exit 3
mkdir -p out evidence
bash ./build.sh
