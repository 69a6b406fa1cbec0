#!/bin/bash
# Try seeded demos on a scratch clone: exit 0 without, nonzero with the patch.
for b in "$@"; do
  d=$(mktemp -d); git clone -q /repo "$d/repo"; cd "$d/repo"
  [ -n "$BUILD" ] && cp -r /repo/_build . 2>/dev/null
  bash /verif/seeded/$b/demo.sh > "$d/o1" 2>&1; r1=$?
  git apply /verif/seeded/$b/patch.diff || echo NOAPPLY
  bash /verif/seeded/$b/demo.sh > "$d/o2" 2>&1; r2=$?
  echo "$b clean=$r1 patched=$r2 | $(tail -1 "$d/o1") | $(tail -1 "$d/o2")"
  cd /verif; rm -rf "${d:?}"
done
