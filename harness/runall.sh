#!/bin/bash
# usage: runall.sh secs seed props...
secs=$1; seed=$2; shift 2
for p in "$@"; do
( timeout $((secs*3+30)) /verif/target/release/mcmon run --prop $p --seed $seed --cases 100000000 --secs $secs --out /tmp/$p.json > /tmp/$p.log 2>&1; echo "$p rc=$? $(python3 -c "
import json
from collections import Counter
j=json.load(open('/tmp/$p.json'));print('ev',j['evaluations'],'dist',j['distinct'],'viol',j['violation_count'],dict(Counter(v['what'] for v in j['violations'])))")" ) &
while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.2; done
done; wait
