#!/bin/bash
# usage: seedtest.sh ID...: confirms planted bugs in a scratch copy: the patch applies, builds, keeps the
# stable tests; the demo exits 0 without and nonzero with it.  SEED_CHECKS=1 runs the property's check too.
S=/tmp/srepo
rm -rf /tmp/srepo; cp -a /repo $S
mkdir -p /tmp/svp; for f in build.sh test.sh; do sed "s#/repo\b#$S#g; s#/opt/vp/build.sh#/tmp/svp/build.sh#; s#/opt/vp/dreal#/tmp/svp/dreal#g" /opt/vp/$f > /tmp/svp/$f; done
mkdir -p /tmp/svp/dreal; for f in bazel2ninja.py run_tests.py; do sed "s#/repo\b#$S#g" /opt/vp/dreal/$f > /tmp/svp/dreal/$f; done
bash /tmp/svp/build.sh >/tmp/svp/build0.log 2>&1 || { echo "clean build fails"; exit 1; }
for id in "$@"; do
  D=/tmp/sdemo; rm -rf /tmp/sdemo; mkdir -p $D; cp -a /verif/seeded/$id/. $D/; rm -f $D/*.diff $D/meta.json
  cd $S && git checkout -q -- . && bash /tmp/svp/build.sh >/tmp/svp/b.log 2>&1
  timeout 300 bash $D/demo.sh >/tmp/svp/$id.0 2>&1; a=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /tmp/svp/test.sh /tmp/svp/$id.json >/tmp/svp/$id.test 2>&1 || { echo "$id: build or test driver fails"; tail -3 /tmp/svp/$id.test; }
  t=$(python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/svp/%s.json'%sys.argv[1]))
m=set(b['stable'])-set(o['passed'])
print(len(m),'lost',sorted(m)[:3])
P
)
  timeout 300 bash $D/demo.sh >/tmp/svp/$id.1 2>&1; b=$?
  echo "$id: demo clean=$a patched=$b; tests: $t; $(tail -1 /tmp/svp/$id.1 | cut -c1-150)"
  if [ -n "$SEED_CHECKS" ]; then
    for p in ${SEED_PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; do
    DXT_REPO=$S python3 /verif/lib/check.py $p quick 2>&1 | cut -c1-300 | tail -3; done
  fi
  git checkout -q -- .
done
rm -rf /tmp/srepo
