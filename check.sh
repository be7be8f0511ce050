#!/bin/bash
# usage: check.sh <property> quick|thorough|replay [stage case]
# Builds the monitors against /repo's current working tree and runs one property's check.
cd /verif || exit 2
source /verif/tools/env.sh
P="$1"; shift
MODE="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
case "$P" in
  C11) build_core & c=$!; build_san address asan; r=$?; wait $c && [ $r = 0 ] || exit 2 ;;
  C12) build_core & c=$!; build_san thread tsan; r=$?; wait $c && [ $r = 0 ] || exit 2 ;;
  C10|C15|C16|C17|C18|C19|C2*) build_core & c=$!; build_cli; r=$?; wait $c && [ $r = 0 ] || exit 2 ;;
  *) build_core || exit 2 ;;
esac
LIM=840; [ "$MODE" = thorough ] && LIM=6000
exec timeout -k 10 $LIM "$BUILD/core/debug/vmon" "$P" "$MODE" "$@"
