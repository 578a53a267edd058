#!/bin/bash
# plant.sh ID: checks the planted change seeded/ID (build, tests, demonstration) in a scratch copy of /repo
id=$1; d=/verif/seeded/$id; w=/tmp/plant
mkdir -p $w
[ -d $w/repo ] || cp -a /repo $w/repo
cd $w/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
cp -n /verif/tools/demo/demo.sh /verif/tools/demo/net.rs $d/ 2>/dev/null; chmod +x $d/demo.sh
bash $d/demo.sh >/tmp/plant/out0 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/plant/out0; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $d/demo.sh >/tmp/plant/out1 2>&1; r=$?
[ $r = 0 ] && { echo "$id: demo passes with the change"; exit 1; }
echo "$id: demo: $(grep -v '^ *$' /tmp/plant/out1 | grep -A2 -iE "panicked|error" | head -3 | tr '\n' ' ')"
[ -n "$NOTEST" ] || { CARGO_TARGET_DIR=$w/target timeout 900 cargo nextest run --workspace --all-features --offline --no-fail-fast --test-threads 8 >/tmp/plant/tests 2>&1; grep -E "Summary|FAIL|error" /tmp/plant/tests | sort -u | head; }
git checkout -q -- .
