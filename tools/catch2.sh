#!/bin/bash
# catch2.sh <seeded id>...: like catch.sh, on a private copy of /repo and /verif bound over them in a mount namespace of its own
for id in "$@"; do
  d=$(mktemp -d /tmp/catch_XXXX); cp -a /repo $d/repo; rsync -a --exclude seeded --exclude .git /verif/ $d/verif/ 2>/dev/null || (mkdir -p $d/verif && tar -C /verif --exclude=./seeded --exclude=./.git -cf - . | tar -C $d/verif -xf -)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $d/repo checkout -q -- . ; git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(unshare -m sh -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && timeout 900 ./check.py $p --tier quick" 2>&1); rc=$?
  echo "$id: exit $rc: $(echo "$out" | grep VIOLATION)"; echo "$out" | grep -E "^  FAIL|^  FAILED" | head -3 | cut -c1-250
  find $d -delete
done
