#!/bin/bash
# run every check against every planted change (in /repo, undone straight after); prints which checks alarm
cd /verif || exit 1
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for id in $ids; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  hits=$(for i in $(seq -w 1 20); do echo C$i; done | xargs -P 7 -I{} sh -c 'python3 -m sa.check {} >/tmp/mx.{} 2>&1; r=$?; if [ $r = 1 ]; then echo {}; elif [ $r != 0 ]; then echo "{}:rc$r"; fi' | sort | tr '\n' ' ')
  git -C /repo checkout -q -- .
  case " $hits " in *" $prop "*) s=CAUGHT;; *) s=MISSED;; esac
  echo "$s $id $prop by: $hits"
done
