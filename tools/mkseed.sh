#!/bin/bash
# usage: mkseed.sh ID PROPERTY FILE PERL-EXPR NEEDS BREAKS  (demo.cc on stdin): writes /verif/seeded/ID
id=$1; D=/verif/seeded/$id; mkdir -p $D
T=/tmp/mkseed; rm -rf /tmp/mkseed; git -C /repo worktree list >/dev/null
mkdir -p $T/a $T/b; 
mkdir -p $T/a/$(dirname $3) $T/b/$(dirname $3)
cp /repo/$3 $T/a/$3; cp /repo/$3 $T/b/$3
perl -0pi -e "$4" $T/b/$3
cmp -s $T/a/$3 $T/b/$3 && { echo "NO CHANGE"; exit 1; }
(cd $T && git diff --no-index --src-prefix= --dst-prefix= a b | sed -E 's#^(---|\+\+\+) #\1 #') > $D/patch.diff
sed -i -E 's#^diff --git .*#diff --git a/'"$3"' b/'"$3"'#' $D/patch.diff
cat > $D/demo.cc
cp /verif/tools/demo_template.sh $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[5],"what_it_breaks":sys.argv[6]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
git -C /repo apply --check $D/patch.diff && echo ok $id
