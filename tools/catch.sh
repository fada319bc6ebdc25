#!/bin/bash
# Which checks report each planted bug: tools/catch.sh [-a] [ID...]   (-a: all checks, otherwise the bug's own)
cd "$(dirname "$0")/.."
all=0; [ "$1" = -a ] && { all=1; shift; }
ids=${*:-$(ls seeded)}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in $ids; do
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if [ $all = 1 ]; then list=$(ls checks | sed 's/\.py//'); else list=$prop; fi
  res=$(for c in $list; do echo $c; done | xargs -P8 -I{} sh -c '[ -f checks/{}.py ] || { echo {}=none; exit; }; python3 checks/{}.py >/tmp/catch.{}.log 2>&1; r=$?; [ $r = 0 ] || echo {}=$r' | sort | tr '\n' ' ')
  git -C /repo checkout -- .
  case "$res" in *"$prop=1"*) v=caught;; *) v=MISSED;; esac
  echo "$id ($prop): $v ${res}"
done
