#!/bin/bash
# catch.sh [ID ...]: applies each planted bug to a copy of /repo, mounted over /repo in a namespace of its own (so that
# neither /repo nor /verif/build is touched), and runs its property's quick check.
[ "$IN_NS" ] || { d=$(mktemp -d /tmp/catch.XXXX); cp -a /repo $d/repo; cp -a /verif $d/verif
  IN_NS=1 D=$d unshare -m bash /verif/tools/catch.sh "$@"; r=$?; rm -rf "$d"; exit $r; }
mount --bind $D/repo /repo && mount --bind $D/verif /verif || exit 2
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  t=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 -o 'VIOLATION.*' <<<"$out" | cut -c1-150)$(grep -m1 'ERROR\|INCOMPLETE' <<<"$out" | cut -c1-200)"
done
