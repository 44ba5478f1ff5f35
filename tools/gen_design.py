"""Writes DESIGN.md: the fixed text of design_text.md plus the per-property sections and the table of planted bugs."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.path.insert(0, os.path.join(R, 'tools'))
sys.dont_write_bytecode = True
from design_methods import HOW
text = open(os.path.join(R, 'tools', 'design_text.md')).read()
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
out = []
for p in props:
    m = importlib.import_module('props.' + p['id'].lower())
    ev = os.path.join(R, 'evidence', p['id'] + '.json')
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append('*Encoding and oracle.* ' + HOW[p['id']] + '\n')
    out.append('*Bounds.* ' + m.BOUNDS[0].upper() + m.BOUNDS[1:] + '.\n')
    out.append('*Outside.* ' + m.OUTSIDE[0].upper() + m.OUTSIDE[1:] + '.' + (' *Assumed.* ' + m.ASSUMPTIONS + '.' if getattr(m, 'ASSUMPTIONS', '') else '') + '\n')
    out.append('*Why tests cannot settle it.* ' + p['why_tests_cant'] + ' *Size.* %d quick cases, %d thorough.\n' % (len(m.cases('quick')), len(m.cases('thorough'))))
sd = os.path.join(R, 'seeded')
caught = json.load(open(os.path.join(R, 'tools', 'seeded_results.json')))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(sd), key=lambda s: (json.load(open(os.path.join(sd, s, 'meta.json')))['property'], s)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], str(m['needs']).replace('|', '/').replace('\n', ' '), caught.get(s, '(not run)')))
text = text.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(rows))
kf = json.load(open(os.path.join(R, 'known-findings.json')))
text = text.replace('@@FIXED@@', '\n'.join('- ' + f[len('fixed: '):] for f in kf['fixed']))
open(os.path.join(R, 'DESIGN.md'), 'w').write(text)
