#!/bin/bash
# try_seeds.sh [-a] [id...]: applies each planted bug to /repo, runs its property's check (-a: every check), undoes it.
cd "$(dirname "$0")/.." || exit 2
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# = 0 ] && set -- $(ls seeded)
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  props=$prop; [ "$all" ] && props=$(seq -f 'C%02.0f' 1 30)
  line="$id:"
  for p in $props; do
    out=$(VERIF_TIER=quick ./check.sh $p 2>&1); rc=$?
    case $rc in 1) line="$line $p" ;; 0) ;; *) line="$line $p=rc$rc" ;; esac
    [ "$all" ] || line="$line  $(echo "$out" | grep "^$p/" | cut -c1-160)"
  done
  echo "$line"
  git -C /repo checkout -q -- .
done
