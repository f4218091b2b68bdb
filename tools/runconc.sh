#!/bin/sh
# development: concrete runs of one property: runconc.sh C02 [seconds] [seed]
. /opt/vp/env.sh 2>/dev/null
export PYTHONPATH=/repo:${VW:-/verif} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1
cd /tmp && exec /opt/venv/bin/python -m pydv.concrun "$1" "${3:-1}" 0 1 "${2:-6}" quick | python3 -c "
import sys,json
for line in sys.stdin:
    if line.startswith('@@RESULT '):
        r=json.loads(line[9:])
        print({h:(v if not isinstance(v,dict) else v) for h,v in r['runs'].items()})
        for v in r['violations'][:12]:
            print('VIOL',v['harness'],'|',v['check'],'|',str(v['detail'])[:300],'|',json.dumps(v.get('inputs'))[:500]); print('\n'.join(v.get('trace',[])[-5:]))
    else: print(line,end='')
"
