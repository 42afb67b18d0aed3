#!/bin/bash
# compiles every harness package once, offline
ROOT="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
if [ -w /dev/shm ]; then BASE=/dev/shm; else BASE=/tmp; fi
WORK="$(mktemp -d "$BASE/verif-setup-XXXXXX")" || exit 3
trap 'rm -rf "$WORK"' EXIT
cp -r "$ROOT/harness" "$WORK/harness" && cd "$WORK/harness" || exit 3
for p in $(awk '{print $2}' packages.txt | sort -u); do
  go test -vet=off -c -o "$WORK/x.test" "./$p" || exit 1
done
