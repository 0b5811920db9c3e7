#!/bin/bash
# verify.sh ID...: whether changes build, pass the tests, and whether their demonstrations tell them from the unchanged tree.
# Everything happens in a copy of /repo under /tmp.
V=$(cd "$(dirname "$0")/../.." && pwd)
W=/tmp/seedverify
export CCC_OVERRIDE_OPTIONS="# +-no-pie"
rm -rf /tmp/seedverify
git clone -q /repo $W || exit 3
for id; do
  git -C $W checkout -q -- .
  (cd $W && cargo build -q --offline 2>/dev/null && bash "$V/seeded/$id/demo.sh") > /tmp/seedverify.log 2>&1 || { echo "$id: the demonstration fails on the unchanged tree: $(tail -1 /tmp/seedverify.log)"; continue; }
  git -C $W apply "$V/seeded/$id/patch.diff" || { echo "$id: doesn't apply"; continue; }
  (cd $W && cargo build --offline) > /tmp/seedverify.log 2>&1 || { echo "$id: doesn't build"; grep -A6 '^error' /tmp/seedverify.log; continue; }
  (cd $W && cargo test --offline) > /tmp/seedverify.log 2>&1 || { echo "$id: fails the tests"; continue; }
  if (cd $W && bash "$V/seeded/$id/demo.sh") > /tmp/seedverify.log 2>&1; then echo "$id: NOT SHOWN"; else echo "$id: ok, $(tail -1 /tmp/seedverify.log)"; fi
done
rm -rf /tmp/seedverify /tmp/seedverify.log
