#!/bin/bash
# tryseed.sh ID [PROP...]: runs checks against a planted bug (applied to /repo, undone afterwards)
D=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply $D/patch.diff || exit 2
for p in $P; do s=$(date +%s.%N); /verif/check.sh $p quick > /tmp/try.out; rc=$?; printf '%s %s rc=%d %.1fs ' $(basename $D) $p $rc $(echo "$(date +%s.%N)-$s"|bc); grep -m1 VIOLATION /tmp/try.out || echo; done
git -C /repo checkout -- .
