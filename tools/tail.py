"""Rewrite the table of planted bugs in design_tail.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = {'R07', 'R08', 'T01', 'Q03', 'L01', 'L03', 'L04', 'M12', 'N05', 'N06'}
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = p.split('/')[-2]
    m = json.load(open(p))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], 'after strengthening' if i in LATE else 'yes'))
p = V + '/tools/design_tail.md'
s = open(p).read()
a, b = s.index('<!-- table -->'), s.index('<!-- end -->')
s = s[:a] + '<!-- table -->\n| change | reported by | what it breaks | needs | caught |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:]
open(p, 'w').write(s)
