"""(development) fills the tables of DESIGN.md"""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open('DESIGN.md').read()
rows = ['<!-- seeded -->', '| planted | property | needs |', '|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    needs = m['needs'] if isinstance(m['needs'], str) else ', '.join(m['needs'])
    rows.append('| %s | %s | %s |' % (d, m['property'], needs.replace('|', '/')))
rows.append('<!-- /seeded -->')
fx = ['<!-- fixes -->']
for f in json.load(open('known_findings.json'))['findings']:
    t = re.sub(r'^fixed: property=C\d\d ', '', f['status'])
    fx.append('* %s (%s) %s' % (f['id'], f['property'], t))
fx.append('<!-- /fixes -->')
for tag, new in (('seeded', rows), ('fixes', fx)):
    new = '\n'.join(new)
    if '@@%s@@' % tag.upper() in s:
        s = s.replace('@@%s@@' % tag.upper(), new)
    else:
        s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: new, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
