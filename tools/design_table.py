"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and seeded.json (results of tools/catch.sh)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], res.get(i, '?')))
s = open(V + '/DESIGN.md').read()
if '@TABLE@' in s:
    s = s.replace('@TABLE@', '<!--T-->\n@T@\n<!--/T-->')
a, b = s.index('<!--T-->'), s.index('<!--/T-->')
open(V + '/DESIGN.md', 'w').write(s[:a] + '<!--T-->\n' + '\n'.join(rows) + '\n' + s[b:])
