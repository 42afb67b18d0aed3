#!/bin/bash
# all.sh DIR [IDs]: rewrites a clone of /repo in DIR without changing what it does, and runs the checks on it.
d=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
[ -d "$d" ] || { git clone -q /repo "$d" && python3 "$here/apply.py" "$d" || exit 2; }
for i in ${@:-$(seq -f 'C%02g' 1 33)}; do
  VERIF_REPO=$d VERIF_NO_EVIDENCE=1 "$here/../../check.sh" $i >/tmp/refac-$i.log 2>&1 || { echo "$i: exit $?"; grep -m1 -B3 VIOLATION /tmp/refac-$i.log | cut -c1-400; }
done
echo done
