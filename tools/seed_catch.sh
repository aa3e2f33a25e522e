#!/bin/bash
# seed_catch.sh [-a] ID...: apply each planted bug to /repo, run the check of its property (-a: all checks), undo it.
all=; [ "$1" = -a ] && { all=1; shift; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
  out=
  for q in $( [ -n "$all" ] && echo P{01..23} || echo $p ); do
    s=$(date +%s.%N)
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check $q quick >/tmp/catch.log 2>&1; x=$?
    e=$(date +%s.%N)
    [ $x = 0 ] || { out="$out $q($x"; [ $x = 1 ] && ! grep -q "^VIOLATION property=$q replay=" /tmp/catch.log && out="$out-noline"; out="$out $(echo "$e-$s" | bc | cut -c1-5)s)"; }
  done
  git -C /repo checkout -q -- .
  echo "$id [$p]:${out:- MISSED}"
done
