#!/bin/bash
# mut.sh PID[,PID] FILE PERL-EXPR : run checks against a scratch copy with one edit (development aid)
R=/tmp/mrepo
[ -d $R ] || cp -a /repo $R
f=$R/$2
[ -f "$f" ] || { echo no file $2; exit 3; }
cp "$f" /tmp/mut.orig
perl -0pi -e "$3" "$f"
cmp -s "$f" /tmp/mut.orig && { echo "NO CHANGE: $3"; exit 3; }
for p in ${1//,/ }; do
DXT_REPO=$R python3 /verif/lib/check.py $p quick 2>&1 | cut -c1-${W:-400} | tail -${N:-6}
done
cp /tmp/mut.orig "$f"
