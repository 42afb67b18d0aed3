#!/bin/bash
# usage: check.sh PROPERTY            (tier and seed come from VERIF_TIER and VERIF_SEED)
#        check.sh PROPERTY REPLAY     re-run one saved case
set -u
ID="${1:?property id}"
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" VERIF_PROP="$ID" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
[ -n "${2:-}" ] && export VERIF_REPLAY="$(realpath "$2")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 TZ=UTC
PKG="$(awk -v id="$ID" '$1==id{print $2}' "$ROOT/harness/packages.txt")"
[ -n "$PKG" ] || { echo "unknown property $ID"; exit 3; }
if [ -d /dev/shm ] && [ -w /dev/shm ]; then BASE=/dev/shm; else BASE=/tmp; fi
WORK="$(mktemp -d "$BASE/verif-$ID-XXXXXX")" || exit 3
trap 'rm -rf "$WORK"' EXIT
cp -r "$ROOT/harness" "$WORK/harness" || exit 3
cd "$WORK/harness" || exit 3
# development only: check a copy of the repository
[ -n "${VERIF_REPO:-}" ] && sed -i "s|=> /repo\$|=> $VERIF_REPO|" go.mod
go test -vet=off -c -o "$WORK/check.test" "./$PKG" || { echo "CHECK-ERROR property=$ID build failed"; exit 3; }
mkdir "$WORK/tmp"
TMPDIR="$WORK/tmp" "$WORK/check.test"
rc=$?
exit $rc
