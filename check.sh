#!/bin/bash
# check.sh ID          decide one property (VERIF_SEED, VERIF_TIER)
# check.sh ID thorough go on with further seeds for ten minutes
# check.sh replay FILE run a replay file again
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$GTFSVERIF_DIR/sim" || exit 2
mkdir -p "$GTFSVERIF_DIR/build" || exit 2
bin="$GTFSVERIF_DIR/build/simctl.$$"
trap 'rm -f "$bin"' EXIT
go build -buildvcs=false -o "$bin" . || exit 2
cd "$GTFSVERIF_DIR" || exit 2
case "$1" in
replay) "$bin" replay "$2" ;;
campaign) "$bin" "$@" ;;
*) [ "$2" = thorough ] && export VERIF_TIER=thorough
   "$bin" check "$1" ;;
esac
