#!/bin/bash
# seed.sh new ID          save the difference of the scratch copy as seeded/ID/patch.diff
# seed.sh try ID          scratch copy: demo passes without, builds/tests/demo with the patch
# seed.sh check ID [PROP..] run the checks of PROP (default: the bug's property) against the patched scratch copy
# The scratch copy is /tmp/sc/repo (made on demand), the copy of /verif is /tmp/sc/verif.
set -u
SC=/tmp/sc; R=$SC/repo; V=/verif; cmd=$1; id=${2:-}
mk() {
  mkdir -p $SC
  if [ ! -d $R ]; then cp -a /repo $R; rm -rf $R/_build; fi
  mkdir -p $SC/opt; for f in build.sh test.sh; do sed "s#/repo#$R#g;s#/opt/vp/harness/run_tests#$SC/opt/run_tests#;s#/opt/vp/build.sh#$SC/opt/build.sh#" /opt/vp/$f > $SC/opt/$f; done
  sed "s#/repo#$R#g" /opt/vp/harness/run_tests.py > $SC/opt/run_tests.py
  git -C $R fetch -q /repo HEAD 2>/dev/null && git -C $R reset -q --hard FETCH_HEAD
}
case $cmd in
new) mkdir -p $V/seeded/$id; [ -f $V/seeded/$id/demo.sh ] || cp $V/tools/seedlib/demo.sh $V/tools/seedlib/tt.h $V/seeded/$id/; git -C $R diff > $V/seeded/$id/patch.diff; wc -l $V/seeded/$id/patch.diff;;
reset) mk;;
try)
  mk
  bash $SC/opt/build.sh > $SC/build.log 2>&1 || { echo "clean build failed"; exit 1; }
  rm -rf $SC/demo; mkdir $SC/demo; for f in $V/seeded/$id/*; do case $f in *.diff|*meta.json) ;; *) cp -a "$f" $SC/demo/;; esac; done
  (cd $R && timeout 300 bash $SC/demo/demo.sh > $SC/d0.log 2>&1); r0=$?
  git -C $R apply $V/seeded/$id/patch.diff || { echo "does not apply"; exit 1; }
  bash $SC/opt/build.sh > $SC/build.log 2>&1 || { echo "patched build failed"; tail -5 $SC/build.log; git -C $R checkout -q -- .; exit 1; }
  bash $SC/opt/test.sh $SC/t.json > $SC/test.log 2>&1
  (cd $R && timeout 300 bash $SC/demo/demo.sh > $SC/d1.log 2>&1); r1=$?
  p=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$SC/t.json'));s=b['stable']; s=set(s) if not isinstance(s,dict) else set(s.keys());print(len(set(t['passed'])), 'missing:', [x for x in s if x not in t['passed']][:5])")
  echo "$id: demo clean=$r0 patched=$r1 tests passed: $p"; tail -1 $SC/d1.log | cut -c1-150
  git -C $R checkout -q -- .;;
check)
  mk; shift 2; props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
  mkdir -p $SC/verif; rsync -a --exclude .git --exclude build --exclude seeded --exclude replays $V/ $SC/verif/ 2>/dev/null || cp -a $V/pbt $V/*.py $V/*.sh $V/known_findings.txt $SC/verif/
  git -C $R apply $V/seeded/$id/patch.diff || exit 1
  for p in $props; do (cd $SC/verif; REPO=$R timeout 900 ./check.sh $p > $SC/c.log 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -a '^failure' $SC/c.log | head -1 | cut -c1-220) | $(grep -ac '' $SC/c.log) lines, $(grep -a 'cases,' $SC/c.log | tail -1 | cut -c1-90)"); done
  git -C $R checkout -q -- .;;
esac
