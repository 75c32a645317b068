#!/bin/bash
# Builds the driver, and the simulated program once, so that the Go build
# cache is warm for the checks.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
set -e
mkdir -p "$GTFSVERIF_DIR/build" "$GTFSVERIF_DIR/evidence"
cd "$GTFSVERIF_DIR/sim"
go build -buildvcs=false -o "$GTFSVERIF_DIR/build/simctl" .
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
"$GTFSVERIF_DIR/build/simctl" build "$tmp/b" race
