#!/bin/bash
# try.sh ID... : demo on the unchanged tree (0), on the changed tree (nonzero), then the property's check (development tool)
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D=$V/seeded/$id; W=$(mktemp -d /tmp/try.XXXXXX); git -C /repo archive HEAD | tar x -C $W; 
  (cd $W && bash $D/demo.sh > $W.clean 2>&1; echo $? > $W.rc0; patch -s -p1 < $D/patch.diff || echo "PATCH FAILED"; bash $D/demo.sh > $W.bad 2>&1; echo $? > $W.rc1)
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  echo "$id [$prop] demo clean $(cat $W.rc0) patched $(cat $W.rc1): $(grep -m1 FAIL $W.bad)"
  [ "$(cat $W.rc0)" != 0 ] && tail -5 $W.clean
  if [ -z "$NOCHECK" ]; then for p in ${PROPS:-$prop}; do (cd $V && REPO=$W VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick > $W.chk 2>&1; echo "   check $p exit $? $(grep -m1 VIOLATION $W.chk)"; grep -A2 -m1 -i "kind\|detail" $W.chk | head -2 | cut -c1-260); done; fi
  rm -rf "$W" "$W".clean "$W".bad "$W".rc0 "$W".rc1 "$W".chk
done
