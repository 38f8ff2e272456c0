"""Fill the table of planted bugs into DESIGN.md (from seeded/*/meta.json and
tools/caught.json)."""
import json, os, re
V = '/verif'
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| bug | property | what it needs | reported by |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|'), caught.get(s, 'not run')))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'@@SEEDED@@|\| bug \| property.*?\n(?=\n)', lambda _: '\n'.join(rows) + '\n' if _.group(0)[0] == '|' else '\n'.join(rows), t, count=1, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
