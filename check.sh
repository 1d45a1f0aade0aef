#!/bin/bash
# check.sh PROPERTY TIER: rebuild from /repo's working tree and decide one property.
cd "$(dirname "$0")/mc" || exit 9
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift 2
V=mc; case $P in C25) V=asan;; C12|C33) V=sig;; esac
./build.sh $V || { echo "build failed" >&2; exit 9; }
exec ../build/$V/mc "$P" "$T" --verif "$(cd .. && pwd)" "$@"
