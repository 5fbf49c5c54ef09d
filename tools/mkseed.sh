#!/bin/bash
# mkseed.sh ID: takes the change of the scratch copy /tmp/sc (git diff) as seeded/ID/patch.diff and confirms it:
# builds, stable tests pass, the demo passes without it and fails with it. main.rs and meta.json must already lie in seeded/ID.
set -u
ID=$1; V=/verif; S=$V/seeded/$ID; W=/tmp/sc
[ -f "$S/patch.diff" ] && [ "${2:-}" != new ] || git -C $W diff -- src clickhouse-rs-cityhash-sys > $S/patch.diff
cp -n $V/tools/seed/demo.sh $V/tools/seed/fake.rs $S/ 2>/dev/null; chmod +x $S/demo.sh
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
git -C $W checkout -q -- . ; git -C $W fetch -q /repo 2>/dev/null; git -C $W reset -q --hard $(git -C /repo rev-parse HEAD)
D=$(mktemp -d); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
(cd $W && bash $D/demo.sh) > /tmp/demo-clean.log 2>&1; a=$?
git -C $W apply $S/patch.diff || exit 1
(cd $W && . /opt/vp/env.sh 2>/dev/null; cd $W && CARGO_TARGET_DIR=$W/target cargo test --offline -p clickhouse-rs -p clickhouse-rs-cityhash-sys --no-fail-fast -- --test-threads 8) > /tmp/seed-test.log 2>&1
(cd $W && bash $D/demo.sh) > /tmp/demo-bug.log 2>&1; b=$?
python3 - <<P
import re,json
ok=set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. ok',open('/tmp/seed-test.log').read(),re.M))
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in st if not x.startswith('doc:') and 'secure_options' not in x and not any(x.endswith(o) or o in x for o in ok)]
print('stable tests not passing:',m)
P
git -C $W checkout -q -- .
rm -rf "$D"
echo "$ID: demo clean exit $a, with bug exit $b"; tail -3 /tmp/demo-bug.log; [ $a = 0 ] || tail -5 /tmp/demo-clean.log
