#!/bin/bash
# confirm.sh ID...: in a scratch build, check that the planted changes (applied
# together) build and pass the stable tests, then each demo with and without.
W=/tmp/sw
cd $W || exit 2
git fetch -q origin && git checkout -q -f FETCH_HEAD 2>/dev/null || git checkout -q -f origin/HEAD
for id in "$@"; do (cd $W && bash /verif/seeded/$id/demo.sh >/dev/null 2>&1); echo "$id clean demo: $?"; done
for id in "$@"; do
  git apply /verif/seeded/$id/patch.diff || echo "$id: patch does not apply"
  [ -n "$TOGETHER" ] || { bash /verif/seeded/$id/demo.sh >/dev/null 2>&1; echo "$id patched demo: $?"; git checkout -q -f -- .; }
done
if [ -n "$TOGETHER" ]; then
  for id in "$@"; do bash /verif/seeded/$id/demo.sh >/dev/null 2>&1; echo "$id patched demo: $?"; done
  ninja -k0 -C _build 2>&1 | grep -E 'FAILED|error' | head
  ctest --test-dir _build -j8 --timeout 400 2>&1 | grep -E 'tests passed|Failed|Timeout' | head -40
  git checkout -q -f -- .
fi
