#!/bin/bash
# mkseed.sh ID plain|sched PROPERTY NEEDS BREAKS : makes seeded/ID from the change
# in the scratch copy /tmp/seed/repo and from /tmp/seed/ID.cc, and confirms it.
ID=$1 KIND=$2 PROP=$3
R=/tmp/seed/repo
O=/verif/seeded/$ID
mkdir -p $O
git -C $R diff > $O/patch.diff
[ -s $O/patch.diff ] || { echo "no change"; exit 1; }
T=/verif/tools/seedtpl
cp /tmp/seed/$ID.cc $O/demo.cc
if [ $KIND = sched ]; then cp $T/demo.sh $O/demo.sh; cp $T/explore.h /verif/rt/vsched.h /verif/rt/vsched.cc $O/; else cp $T/demo_plain.sh $O/demo.sh; fi
chmod +x $O/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[3],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
rm -rf /tmp/seed/d_$ID; cp -a $O /tmp/seed/d_$ID
(cd $R && bash /tmp/seed/d_$ID/demo.sh) > /tmp/seed/$ID.with 2>&1; a=$?
(cd /repo && bash /tmp/seed/d_$ID/demo.sh) > /tmp/seed/$ID.without 2>&1; b=$?
rm -rf /tmp/seed/d_$ID
echo "$ID demo with=$a without=$b"; tail -2 /tmp/seed/$ID.with; tail -1 /tmp/seed/$ID.without
# its own check, against the changed tree
if [ -z "$NOCHECK" ]; then (cd /verif && VERIF_REPO=$R python3 check.py $PROP quick 2>&1 | tail -3 | cut -c1-300); fi
# the repository's tests, built from the changed tree
if [ -z "$NOTEST" ]; then /verif/tools/seedtest.sh $R; fi
