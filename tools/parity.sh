#!/bin/bash
# The names of five stable tests of ./subscribe hold protobuf text whose spacing
# depends on a hash of the test binary. Reports, per planted bug, whether those
# names come out as in the baseline (0 missing).
cp -f "$0" /tmp/ 2>/dev/null
cat > /tmp/parity.sh <<'X'
cd ${1:-/repo}; . /opt/vp/env.sh
python3 - <<'P'
import json,subprocess
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
want={x for x in b if 'TestOriginInSubscribe' in x}
o=subprocess.run(['go','test','-json','-vet=off','-count=1','-run','TestOriginInSubscribeRequest','./subscribe'],capture_output=True,text=True).stdout
got=set()
for l in o.splitlines():
    j=json.loads(l)
    if j.get('Action')=='pass' and j.get('Test'): got.add(j['Package']+'/'+j['Test'])
print('missing',len(want-got))
P
X
echo "HEAD $(bash /tmp/parity.sh)"
for d in /verif/seeded/*${1}*/; do
  id=$(basename "$d")
  git -C /repo apply "$d/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  echo "$id $(bash /tmp/parity.sh)"
  git -C /repo checkout -q -- .
done
