#!/bin/bash
# tryseed.sh ID...: in a scratch copy mounted over /repo and /verif, confirm each planted bug (builds, tests pass,
# demo 0 without and nonzero with it) and run the check of its property against it. Development tool.
S=${SCR:-/tmp/scr}
mkdir -p $S
if [ "$1" = sync ]; then
  rsync -a --delete /repo/ $S/repo/ 2>/dev/null || { rm -rf $S/repo; cp -a /repo $S/repo; }
  rsync -a --delete /verif/ $S/verif/ 2>/dev/null || { rm -rf $S/verif; cp -a /verif $S/verif; }
  exit
fi
exec unshare -rm bash -c '
S=$1; shift
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
  git checkout -q -- . ; r="$id $p:"
  cp -r $d /tmp/demo_$id.$$
  if [ -z "$CHECKONLY" ]; then
    bash /opt/vp/build.sh >$S/$id.build0 2>&1 || r="$r BUILD0-FAILED"
    bash /tmp/demo_$id.$$/demo.sh >$S/$id.demo0 2>&1; r="$r demo0=$?"
  fi
  git apply $d/patch.diff || r="$r APPLY-FAILED"
  if [ -z "$CHECKONLY" ]; then
    bash /opt/vp/build.sh >$S/$id.build 2>&1 || r="$r BUILD-FAILED"
    bash /opt/vp/test.sh $S/$id.json >$S/$id.test 2>&1
    r="$r $(python3 -c "import json;d=json.load(open(\"$S/$id.json\"));b=json.load(open(\"/opt/vp/BASELINE.json\"));print(\"tests\",len(d[\"passed\"]),len(d[\"failed\"]))")"
    bash /tmp/demo_$id.$$/demo.sh >$S/$id.demo1 2>&1; r="$r demo1=$?"
  fi
  if [ -z "$NOCHECK" ]; then
    t0=$SECONDS; (cd /verif; bash check.sh $p ${TIER:-quick}) >$S/$id.check 2>&1; r="$r check=$? $(grep -c "^VIOLATION property=$p" $S/$id.check) $((SECONDS-t0))s"
  fi
  git checkout -q -- .
  rm -rf /tmp/demo_$id.$$
  echo "$r"
done' _ $S "$@"
