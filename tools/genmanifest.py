"""(development) writes MANIFEST.json from the contract files and the last evidence files"""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open('properties.jsonl')}
checks, na = [], []
for p in ids:
    if not os.path.exists('contracts/%s.py' % p):
        na.append({'property': p, 'reason': 'the contract for this property is not written yet'})
        continue
    src = open('contracts/%s.py' % p).read()
    sym = re.findall(r"\((h_\w+), \{[^}]*'sym': True", src)
    allh = re.findall(r"\((h_\w+), \{", src)
    only = [h for h in allh if h not in sym]
    ev = {}
    if os.path.exists('evidence/%s.json' % p):
        ev = json.load(open('evidence/%s.json' % p))
    proved = [c['harness'] for c in ev.get('coverage', {}).get('contracts', []) if c['verdict'] == 'proved']
    level = 'proof' if proved else 'exploration'
    if proved:
        note = '%d of %d contract harnesses are discharged in full for all inputs by pydv + z3/cvc5 over /repo\'s source (%s)' % (
            len(proved), len(allh), ', '.join(proved))
        rest = [h for h in allh if h not in proved]
        if rest:
            note += '; bounded (the same contract text run on the real code with generated inputs, never counted as proved): ' + ', '.join(rest)
        note += '. Assumes exact real arithmetic for floats and pydv\'s models of numpy and builtins.'
    else:
        note = 'no contract of this property is discharged; all are bounded runtime contract checks on the real code: ' + ', '.join(allh)
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                   'thorough_cmd': 'python3 check.py %s thorough' % p,
                   'technique': 'contract-based deductive verification: pydv generates verification conditions from /repo\'s source, '
                                'z3/cvc5 discharge them; runtime contract checking is the bounded stand-in' if proved else
                                'runtime contract checking on the real code (bounded stand-in for deductive verification)',
                   'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'every check decides with python3 check.py <id>; see DESIGN.md. No hooks in /repo: the engine reads the source as it is.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
