#!/bin/bash
# seedtest.sh ID...: does the demonstration of each planted bug pass on a clean copy and fail on the patched one?
. /opt/vp/env.sh
for id in "$@"; do
d=/verif/seeded/$id
w=/tmp/seedtest.$$; rm -rf "$w"; cp -a /repo "$w"; cd "$w"
git checkout -q -- . 
c=0; bash $d/demo.sh >/tmp/sd/$id.clean 2>&1 || c=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
b=0; go build ./... >/tmp/sd/$id.build 2>&1 && go vet ./... >/dev/null 2>&1; go build ./... 2>/dev/null || b=1
t=0; go test ./... >/tmp/sd/$id.tests 2>&1 || t=1
p=0; s=$(date +%s); bash $d/demo.sh >/tmp/sd/$id.patched 2>&1 || p=$?
e=$(( $(date +%s) - s ))
cd /; rm -rf "$w"
echo "$id: clean=$c build=$b tests=$t patched=$p (${e}s) $(grep -m1 -E 'FAIL:|panic|mismatch|RACE|zz:' /tmp/sd/$id.patched | cut -c1-120)"
done
