#!/bin/bash
# quiet.sh [ID ...]: applies each behaviour-preserving edit of refactors.py to a copy of /repo (mounted over /repo in a
# namespace of its own), runs the repository's tests and the checks concerned, which have to stay quiet.
[ "$IN_NS" ] || { d=$(mktemp -d /tmp/quiet.XXXX); cp -a /repo $d/repo; cp -a /verif $d/verif
  IN_NS=1 D=$d unshare -m bash /verif/tools/quiet.sh "$@"; r=$?; rm -rf "$d"; exit $r; }
mount --bind $D/repo /repo && mount --bind $D/verif /verif || exit 2
cd /verif
[ $# = 0 ] && set -- $(python3 tools/refactors.py | cut -d' ' -f1)
for id in "$@"; do
  ps=$(python3 tools/refactors.py $id) || { echo "$id NOAPPLY"; git -C /repo checkout -q -- .; continue; }
  echo "$id tests: $(bash tools/runtests.sh 2>&1 | tail -1)"
  for p in $ps; do
    t=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p --tier quick 2>&1); rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(grep -m3 -o 'VIOLATION.*\|ERROR.*\|INCOMPLETE.*' <<<"$out" | cut -c1-150 | tr '\n' '|')"
  done
  git -C /repo checkout -q -- .
done
