#!/bin/bash
# usage: seedtest.sh SEEDDIR...   apply each planted change to /repo, confirm it, run its property's check, undo it
args=(); for d in "$@"; do args+=("$(realpath "$d")"); done
for d in "${args[@]}"; do
n=$(basename "$d"); p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git checkout -q -- .
bash "$d/demo.sh" >/tmp/seed.log 2>&1; clean=$?
git apply "$d/patch.diff" || { echo "$n: patch does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
t=$(python3 -c "import json;d=json.load(open('/tmp/seed.json'));print(len(d['passed']) if isinstance(d['passed'],list) else d['passed'])")
bash "$d/demo.sh" >/tmp/seed.log2 2>&1; dem=$?
s=$(date +%s)
VERIF_NO_EVIDENCE=1 ${CHECK:-/verif/check.sh} $p >/tmp/seed.chk 2>&1; rc=$?
echo "$n $p: demo-clean=$clean build=$b tests=$t demo-patched=$dem check=$rc ($(($(date +%s)-s))s) $(grep -m1 VIOLATION /tmp/seed.chk)"
[ $clean = 0 ] || tail -15 /tmp/seed.log
git checkout -q -- .
done
