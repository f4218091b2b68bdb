#!/bin/sh
# development: one harness, symbolic
exec python3-vt -m pydv.symrun "$1" "$2" "${3:-4000}" "${4:-60}" | python3 -c "
import sys,json
r=json.load(sys.stdin)
print('error:',r['error'])
for t in r.get('trace',[]): print('   ',t)
for o in r['obligations']: print('  %-10s %s %s t=%s paths=%s %s %s'%(o['status'],o['name'],o['backend'],o['time'],o['paths'],o['reason'] or '',json.dumps(o['model'])[:400] if o['model'] else ''))
print({k:r[k] for k in ('paths','complete_paths','queries','solver_time','wall','covered','lemmas') if k in r})
"
