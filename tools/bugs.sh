#!/bin/bash
# bugs.sh PREFIX...: run the property's check on each planted bug, in a scratch copy
GC=${GC:-/tmp/g2}
for d in /verif/seeded/*/; do
 id=$(basename $d); ok=; [ $# = 0 ] && ok=1
 for a in "$@"; do case $id in $a*) ok=1;; esac; done
 [ $ok ] || continue
 (p=$(jq -r .property $d/meta.json); w=/tmp/bugw/$id; rm -rf /tmp/bugw/$id; mkdir -p /tmp/bugw; cp -a /repo $w; git -C $w apply $d/patch.diff; $GC -repo $w -evidence /tmp/bugw/ev.$id $p > /tmp/bugw/$id.out 2>&1; echo "$id $? $(grep '^\[' /tmp/bugw/$id.out | head -1 | cut -c1-200)"; rm -rf /tmp/bugw/$id) &
 while [ $(jobs -r | wc -l) -ge 6 ]; do wait -n; done
done; wait
