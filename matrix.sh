#!/bin/bash
# matrix.sh [ids]: run the property's check against each seeded bug; results into /verif/caught.json
for id in ${@:-$(ls /verif/seeded)}; do
 M=/tmp/mx.$id; rm -rf $M; git clone -q /repo $M; git -C $M apply /verif/seeded/$id/patch.diff || { echo $id NOAPPLY; continue; }
 P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 s=$(date +%s); out=$(cd /verif && VERIF_SEED=1 VERIF_REPO=$M python3 check.py $P 2>&1); rc=$?
 echo "$id rc=$rc $(( $(date +%s)-s ))s | $(echo "$out" | grep -E 'VIOLATION' | head -1) | $(echo "$out" | grep -E 'FAILED OBL|undecided' | cut -c1-160 | head -2 | tr '\n' ' ')"
 OUT="${out:0:60000}" flock /tmp/caught.lock python3 - $id $rc <<'P'
import sys,os,json
id,rc=sys.argv[1],int(sys.argv[2]); o=os.environ['OUT']
p='/verif/caught.json'; d=json.load(open(p)) if os.path.exists(p) else {}
how=[]
if 'FAILED OBLIGATION' in o: how.append('failed obligation in '+', '.join(sorted({l.split('FAILED OBLIGATION in ')[1].split(':')[0]+('::'+l.split('FAILED OBLIGATION in ')[1].split('::')[1].split(':')[0] if '::' in l.split('FAILED OBLIGATION in ')[1].split(': ')[0] else '') for l in o.split('\n') if 'FAILED OBLIGATION in ' in l})))
if 'VIOLATION' in o and 'no-failing-input-found' not in o: how.append('concrete failing input')
d[id]=dict(caught=rc==1 and 'VIOLATION' in o,how='; '.join(how)); json.dump(d,open(p,'w'),indent=1,sort_keys=True)
P
 rm -rf $M
done
