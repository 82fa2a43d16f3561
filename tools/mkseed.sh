#!/bin/bash
# tools/mkseed.sh id : take the difference of the scratch clone /tmp/w/r as the patch of seeded/<id> and reset the clone
D=/tmp/w/v2/seeded/$1; mkdir -p $D
git -C /tmp/w/r diff > $D/patch.diff
git -C /tmp/w/r checkout -q -- .
[ -f $D/demo.sh ] || cp /tmp/w/v2/tools/demo_template.sh $D/demo.sh
wc -l $D/patch.diff
